"""Symbolic objects built mechanically from clang's record layouts, and the obligation recorder."""
import re, time, os, traceback
import build
from ir import Program
from terms import *
import terms as TM
from sym import *
import sym as SYM
import lib as LIB
from lib import Lib, elem_info
import logic
from logic import feasible, entails, ev, Env, NumFail


# ------------------------------------------------------------------ record layouts
class Layouts:
    def __init__(self, paths):
        self.txt = {}
        self.cache = {}
        for tu, p in paths.items():
            f = p[:-3] + ".lay"
            self.txt[tu] = open(f).read()

    def get(self, rec, tu=None):
        """-> (size, [(off, path, type, depthkind)]) leaves and members"""
        key = (rec, tu)
        if key in self.cache:
            return self.cache[key]
        for t, s in self.txt.items():
            if tu is not None and t != tu:
                continue
            m = re.search(r'^ +0 \| (?:struct|class) %s\n' % re.escape(rec), s, re.M)
            if m:
                break
        else:
            raise Unknown("no record layout of " + rec)
        out = []
        stack = []      # (indent, path prefix or None for transparent)
        size = None
        for l in s[m.end():].split('\n'):
            mm = re.match(r' +(\d+)(?::[-\d]+)? \| ( *)(.*)$', l)
            if not mm:
                q = re.search(r'\[sizeof=(\d+)', l)
                if q:
                    size = int(q.group(1))
                break
            off, ind, txt = int(mm.group(1)), len(mm.group(2)), mm.group(3)
            while stack and stack[-1][0] >= ind:
                stack.pop()
            pre = ''.join(p + '.' for _, p in stack if p)
            if txt.endswith('vtable pointer)'):
                out.append((off, pre + '$vptr', 'vptr'))
                continue
            if '(base)' in txt or '(primary base)' in txt or '(virtual base)' in txt or '(primary virtual base)' in txt:
                stack.append((ind, ''))
                continue
            k = txt.rstrip().rfind(' ')
            ty, nm = txt[:k].strip(), txt[k + 1:].strip()
            if txt.endswith(' '):
                ty, nm = txt.strip(), ''
            out.append((off, pre + nm, ty))
            stack.append((ind, nm))
        self.cache[key] = (size, out)
        return size, out

    def off(self, rec, path, tu=None):
        for o, p, t in self.get(rec, tu)[1]:
            if p == path:
                return o
        raise Unknown("no member %s in %s" % (path, rec))


def clean(t):
    return re.sub(r'\b(struct|class|enum) ', '', t)


SCALAR = {'double': (8, 'R'), 'size_t': (8, 'I'), 'unsigned long': (8, 'I'), 'long': (8, 'I'), 'int': (4, 'I'),
          'unsigned int': (4, 'I'), 'unsigned': (4, 'I'), 'bool': (1, 'B'), '_Bool': (1, 'B'), 'size_type': (8, 'I')}


class Ctx:
    """one verification session: program, layouts, executor factory"""

    def __init__(self, tus=build.TUS):
        self.t0 = time.time()
        paths = build.build_all_ir(tus)
        self.prog = Program(paths)
        self.lay = Layouts(paths)
        self.lib = Lib(self.prog)
        self.names = {}
        for m, d in self.lib.dm.items():
            self.names.setdefault(d, m)
        self.build_s = time.time() - self.t0

    def sym(self, demangled):
        """mangled name of a function given its demangled form (anonymous namespace functions: 'tu:mangled')"""
        m = self.names.get(demangled)
        if m is None:
            raise Unknown("function not found: " + demangled)
        for mod in self.prog.mods.values():
            if m in mod.internal and m in mod.fn_src:
                return mod.name + ':' + m
        return m

    def find(self, rx, tu=None):
        """unique mangled name whose demangled form matches rx (full match)"""
        r = re.compile(rx)
        hits = []
        for mod in self.prog.mods.values():
            if tu is not None and mod.name != tu:
                continue
            for n in mod.fn_src:
                if r.fullmatch(self.lib.dm.get(n, n)):
                    q = mod.name + ':' + n if n in mod.internal else n
                    if q not in hits:
                        hits.append(q)
        if not hits:
            raise Unknown("no function matches " + rx)
        # complete-object constructors/destructors: prefer C2/D2 bodies (base), any is fine
        hits.sort()
        return hits[-1] if all(re.search(r'C[12]E', h) for h in hits) else hits[0]

    def executor(self, contracts=None):
        ex = Exec(self.prog, self.lib, dict(contracts or {}))
        ex.ctx = self
        return ex


class Obj:
    """a symbolic object in memory"""

    def __init__(self, ctx, ex, reg, base, rec, tu):
        self.ctx, self.ex, self.reg, self.base, self.rec, self.tu = ctx, ex, reg, base, rec, tu
        self.ptr = Ptr(reg.id, ic(base))

    def off(self, path):
        return self.base + self.ctx.lay.off(self.rec, path, self.tu)

    def p(self, path):
        return Ptr(self.reg.id, ic(self.off(path)))

    def get(self, st, path, ty=('d',)):
        return self.ex.load(st, self.p(path), ty)

    def set(self, st, path, v, ty=('d',)):
        self.ex.store(st, self.p(path), v, ty)

    def vsize(self, st, path, stride):
        return LIB.vec_size(self.ex, st, self.p(path), stride)

    def velem(self, st, path, i, off, ty=('d',)):
        b = self.ex.load(st, self.p(path), PTR)
        reg = st.mem[b.r]
        return self.ex.load(st, Ptr(b.r, iadd(b.o, iadd(iscale(i, reg.stride), ic(off)))), ty)


def new_obj(ctx, ex, st, rec, name, tu=None, counts=None, vtable=None, skip=(), reg=None, base=0, default_count=None):
    """allocate an object of record type `rec`; every member gets a fresh symbol named after its path"""
    size, mem = ctx.lay.get(rec, tu)
    if reg is None:
        reg = ex.alloc(st, name, size=size, base='sym')
        reg.layout = {}
    o = Obj(ctx, ex, reg, base, rec, tu)
    counts = counts or {}
    done = []          # prefixes handled as a unit
    for off, path, ty in mem:
        if any(path == d or path.startswith(d + '.') for d in done):
            continue
        t = clean(ty)
        a = base + off
        nm = name + '.' + path
        if ty == 'vptr':
            if vtable is not None:
                ex.store(st, Ptr(reg.id, ic(a)), vtable, PTR)
            continue
        if path in skip:
            done.append(path)
            continue
        if t in SCALAR:
            reg.layout[a] = SCALAR[t]
            reg.names[a] = nm
            continue
        if re.match(r'std::(__cxx11::)?basic_string<char>$', t):
            done.append(path)
            reg.cells[('g', a)] = ('sym', nm)
            continue
        if t == 'numeric_table':
            done.append(path)
            reg.cells[('g', a)] = ('opaque', nm)
            continue
        if t == 'Config':
            done.append(path)
            reg.cells[('g', a)] = ('config', counts.get(path, nm))
            continue
        m = re.match(r'std::vector<(.*)>$', t)
        if m:
            done.append(path)
            info = elem_info(m.group(1).strip())
            if info is None:
                reg.cells[('g', a)] = ('opaque', nm)
                continue
            n = counts.get(path, default_count)
            if n is None:
                n = ivar('n.' + nm)
                st.assume(ile(I0, n))
                ex.nonneg = ex.nonneg | {'n.' + nm}
            LIB.vec_new(ex, st, Ptr(reg.id, ic(a)), n, info[0], info[1], base='sym', name=nm, fam=nm)
            continue
        m = re.match(r'(state_t::|MomentState::|value_t|.*::)?(vector_t|matrix_t|value_t)$', t)
        info = elem_info(t)
        if info is not None:
            done.append(path)
            for x, (s, k) in info[1].items():
                reg.layout[a + x] = (s, k)
                if k == 'R':
                    j = (x - 8) // 8 if len(info[1]) == 8 else (x - 24) // 8
                    reg.names[a + x] = '%s[%d]' % (nm, j)
            continue
        if t.endswith('*'):
            continue
        # other aggregates: their members follow in the list
    return o


def vtable_ptr(ctx, ex, st, cls_mangled, tu):
    """pointer stored in an object of that dynamic type"""
    p = ex.gptr(st, '_ZTV' + cls_mangled, ctx.prog.mods[tu])
    return Ptr(p.r, ic(16))


# ------------------------------------------------------------------ obligations
class Obl:
    __slots__ = ('fn', 'name', 'status', 'detail', 'cex', 'time')

    def __init__(self, fn, name, status, detail='', cex=None, t=0.0):
        self.fn, self.name, self.status, self.detail, self.cex, self.time = fn, name, status, detail, cex, t

    def __repr__(self):
        return "%s / %s: %s %s" % (self.fn, self.name, self.status, self.detail)


class Recorder:
    def __init__(self):
        self.obls = []
        self.functions = []
        self.assumed = set()
        self.solver_s = 0.0
        self.notes = []

    def add(self, *a, **k):
        o = Obl(*a, **k)
        self.obls.append(o)
        return o


def peel_zero(e):
    """e == 0  <=>  peel_zero(e) == 0"""
    while True:
        if e.op == 'neg' or (e.op == 'fn' and e.args[0] in ('sqrt', 'fabs', 'sinh')):
            e = e.args[-1]
        elif e.op == '/':
            e = e.args[0]
        elif e.op == '*' and e.args[0].op == 'rc' and e.args[0] is not R0:
            e = e.args[1]
        elif e.op == '*' and e.args[1].op == 'rc' and e.args[1] is not R0:
            e = e.args[0]
        elif e.op == '*' and e.args[0] is e.args[1]:
            e = e.args[0]
        else:
            return e


def solve_for(e, v):
    """e = v with e a variable under sign changes and constant factors -> (variable, value)"""
    while True:
        if e.op in ('rv', 'relem'):
            return e, v
        if e.op == 'neg':
            e, v = e.args[0], rneg(v)
        elif e.op == '/' and e.args[1].op == 'rc':
            e, v = e.args[0], rmul(v, e.args[1])
        elif e.op == '*' and e.args[0].op == 'rc' and e.args[0] is not R0:
            e, v = e.args[1], rdiv(v, e.args[0])
        elif e.op == '*' and e.args[1].op == 'rc' and e.args[1] is not R0:
            e, v = e.args[0], rdiv(v, e.args[1])
        else:
            return None


def solved(pc):
    """equalities of the path condition as a substitution variable -> term"""
    m = {}
    for c in pc:
        if c.op != 'req':
            continue
        a, b = c.args
        for x, y in ((a, b), (b, a)):
            if x.op in ('rv', 'relem') and y.op == 'rc':
                m[x] = y
                break
            if y is R0:
                e = peel_zero(x)
                if e.op in ('rv', 'relem'):
                    m[e] = R0
                    break
                if e.op in ('+', '-'):
                    l, r = e.args
                    for p, q in ((l, rneg(r) if e.op == '+' else r), (r, rneg(l) if e.op == '+' else l)):
                        s = solve_for(p, q)
                        if s is not None and s[0] not in m and s[0] not in fvars(q) and not any(k in fvars(q) for k in m):
                            m = {k: subst(v, {s[0]: s[1]}) for k, v in m.items()}
                            m[s[0]] = s[1]
                            break
                    else:
                        continue
                    break
    return m


def apply_eqs(pc, t):
    """use the equalities of the path condition: composite terms known to be 0, then variable = term"""
    z = {}
    for c in pc:
        if c.op == 'req' and R0 in c.args:
            e = c.args[1] if c.args[0] is R0 else c.args[0]
            e = peel_zero(e)
            if e.op in ('+', '-'):
                z[e] = R0
    if z:
        t = subst(t, z)
    m = solved(pc)
    return subst(t, m) if m else t


CMP = ('rlt', 'rle', 'req')


def comparisons(ts):
    """the real comparisons (stripped of negations) among the boolean terms ts"""
    out = {}
    for c in ts:
        if c.op == 'not':
            c = c.args[0]
        if c.op in CMP and not fvars_bound(c):
            out[c] = 1
    return list(out)


def unify_conds(a, b, pc):
    """comparisons in b which compare the same values as one in a or in pc become that one"""
    done = set()
    cp = comparisons(pc)
    form = {d: apply_eqs([x for x in pc if x is not d and x is not bnot(d)], d) for d in cp}
    for _ in range(12):
        ca = comparisons(itecount(a))
        cb = [c for c in comparisons(itecount(b)) if c not in cp and c not in done]
        if not cb or not (ca or cp):
            break
        c = min(cb, key=lambda c: (len(itecount(c)), c.id))
        done.add(c)
        for d in cp + ([] if c in ca else ca):
            e = form.get(d, d)
            if e.op == c.op and fvars(e) == fvars(c):
                x, y = e.args[0] - e.args[1], c.args[0] - c.args[1]
                try:
                    ok = req_proved(x, y)
                except Unknown:
                    ok = False
                if not ok and (itecount(x) or itecount(y)):
                    ok = prove_eq([], x, y, None, 0, 1, [8])[0] == 'proved'
                if ok:
                    b = subst(b, {c: d})
                    break
    return b


def expand_abs(t):
    """|x| as a case distinction on the sign of x"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go) if targs(x) else (x if x.op != 'iv' else mk('lin', 'I', ((x, 1),), 0))
            if r.op == 'fn' and r.args[0] == 'fabs' and not fvars_bound(r):
                y = r.args[1]
                r = rite(rle(R0, y), y, rneg(y))
            memo[x] = r
        return r
    return deep(go, t)


def prove_eq(pc, a, b, dom=None, tries=40, depth=0, budget=None):
    """-> ('proved'|'refuted'|'unknown', detail, cex)"""
    if a is b:
        return 'proved', 'syntactic', None
    if isinstance(a, SYM.Clobbered) or a is UNDEF or b is UNDEF:
        return 'unknown', 'value undetermined (%r / %r)' % (a, b), None
    if not isinstance(a, T) or not isinstance(b, T):
        return ('proved', '', None) if same(a, b) else ('unknown', 'object values %r / %r' % (a, b), None)
    if a.sort == 'I' and b.sort == 'I':
        if entails(pc, ieq(a, b)):
            return 'proved', 'z3', None
        c = numeric_refute(pc, a, b, dom, tries)
        if c is not None:
            return 'refuted', c[0], c[1]
        return 'unknown', 'integer equality %s == %s' % (a, b), None
    if a.sort == 'B' and b.sort == 'B':
        if entails(pc, beq(a, b)):
            return 'proved', 'z3', None
        c = numeric_refute(pc, a, b, dom, tries)
        if c is not None:
            return 'refuted', c[0], c[1]
        return 'unknown', 'boolean equality', None
    if budget is None:
        budget = [200]
    try:
        a1, b1 = apply_eqs(pc, a), apply_eqs(pc, b)
        if a1.op == 'rspecial' or b1.op == 'rspecial':
            return ('proved', '', None) if a1 is b1 else ('unknown', 'special value', None)
        if depth == 0:
            a1 = unify_conds(b1, a1, pc)
            b1 = unify_conds(a1, b1, pc)
        # conditions decided by the path condition first
        undecided = set()
        while True:
            conds = [c for c in set(itecount(a1)) | set(itecount(b1)) if c not in undecided and not fvars_bound(c)]
            if not conds:
                break
            c = min(conds, key=lambda c: (len(itecount(c)), c.id))
            d = True if entails(pc, c) else (False if entails(pc, bnot(c)) else None)
            if d is None:
                undecided.add(c)
                continue
            a1, b1 = assume_cond(a1, c, d), assume_cond(b1, c, d)
            pc = [assume_cond(x, c, d) if x.op == 'req' else x for x in pc] + [c if d else bnot(c)]
            a1, b1 = apply_eqs(pc, a1), apply_eqs(pc, b1)
        conds = [c for c in set(itecount(a1)) | set(itecount(b1)) if not fvars_bound(c)]
        if conds:
            if a1 is b1:
                return 'proved', 'syntactic', None
            try:
                if req_proved(a1, b1):
                    return 'proved', 'normal form', None
            except Unknown:
                pass
            budget[0] -= 1
            if budget[0] <= 0:
                c = numeric_refute(pc, a, b, dom, tries)
                if c is not None:
                    return 'refuted', c[0], c[1]
                return 'unknown', 'too many case splits', None
            c = min(conds, key=lambda c: (len(itecount(c)), c.id))
            res = ('proved', '', None)
            for val, cc in ((True, c), (False, bnot(c))):
                p2 = [assume_cond(x, c, val) if x.op == 'req' else x for x in pc] + [cc]
                if not feasible(p2):
                    continue
                sa, sb = assume_cond(a1, c, val), assume_cond(b1, c, val)
                r = prove_eq(p2, sa, sb, dom, tries, depth + 1, budget)
                if r[0] == 'refuted':
                    return r
                if r[0] == 'unknown':
                    res = r
            return res
        if req_proved(a1, b1):
            return 'proved', 'normal form', None
    except Unknown as e:
        why = str(e)
    else:
        why = 'terms differ in normal form'
    if not feasible(pc) or contradictory(pc):
        return 'proved', 'infeasible path', None
    ea, eb = expand_abs(a), expand_abs(b)
    if ea is not a or eb is not b:
        r = prove_eq(pc, ea, eb, dom, tries, depth + 1, budget)
        return r if r[0] != 'unknown' else (r[0], why, r[2])
    try:
        ua, ub = logic.unfold(a), logic.unfold(b)
        if ua is not None or ub is not None:
            r = prove_eq(pc, a if ua is None else ua, b if ub is None else ub, dom, tries, depth + 1, budget)
            if r[0] != 'unknown':
                return r
    except Unknown:
        pass
    c = numeric_refute(pc, a, b, dom, tries)
    if c is not None:
        return 'refuted', c[0], c[1]
    return 'unknown', why + ': %s =?= %s' % (show(a, 4)[:200], show(b, 4)[:200]), None


def contradictory(pc):
    """a condition becomes false after substituting the solved equalities"""
    m = solved(pc)
    if not m:
        return False
    try:
        q = [subst(c, m) for c in pc if c.op != 'all']
        return any(c is FALSE for c in q) or not feasible(q)
    except Unknown:
        return False


def fvars_bound(c):
    return any(v.op == 'iv' and str(v.args[0]).startswith('$b') for v in fvars(c))


DOM = {}


def default_dom(kind, key, u):
    return 0.3 + 2.4 * u if h01('sgn', str(key), u) > 0.35 else -(0.3 + 2.4 * u)


def numeric_refute(pc, a, b, dom, tries):
    """search an assignment satisfying pc with a != b -> (text, env) or None"""
    for s in range(tries):
        env = Env(seed=s, dom=dom or default_dom)
        # use equalities of the path condition
        for c in pc:
            if c.op == 'req':
                for x, y in (c.args, c.args[::-1]):
                    if x.op == 'rv' and y.op == 'rc':
                        env.vals[x.args[0]] = logic.mp.mpf(y.args[0].numerator) / y.args[0].denominator
                        break
        # random integers: widen with the try number
        try:
            if not all(ev(c, env) for c in pc):
                continue
            x, y = ev(a, env), ev(b, env)
        except (NumFail, OverflowError):
            continue
        if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, int) and isinstance(y, int):
            bad = x != y
        else:
            bad = abs(x - y) > logic.mp.mpf(10) ** -9 * (abs(x) + abs(y)) and abs(x - y) > logic.mp.mpf(10) ** -25
        if bad:
            vals = {str(k): logic.mp.nstr(v, 12) for k, v in list(env.vals.items())[:40]}
            ints = {str(k): v for k, v in env.ints.items()}
            return ("code=%s spec=%s" % (nstr(x), nstr(y)), {'reals': vals, 'ints': ints})
    return None


def nstr(x):
    return logic.mp.nstr(x, 15) if not isinstance(x, (int, bool)) else str(x)
