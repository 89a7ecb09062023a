"""Library contracts: C++ runtime, std::vector / string / streams / exceptions, boost pieces.

Every entry here is an ASSUMED contract of a dependency (listed in the evidence as trusted base).
"""
import re
import build
from terms import *
from sym import *
from logic import feasible, entails

STD_BASE = {
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTIN5boost16bad_lexical_castE': '_ZTISt8bad_cast',
    '_ZTIN5boost7bad_getE': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
}

PARTICLE = {o: (8, 'R') for o in range(0, 96, 8)}


def elem_info(ty):
    """element type name -> (stride, layout) for std::vector storage"""
    ty = ty.strip()
    if ty == 'double':
        return 8, {0: (8, 'R')}
    if ty in ('unsigned long', 'long', 'size_t'):
        return 8, {0: (8, 'I')}
    if ty in ('int', 'unsigned int'):
        return 4, {0: (4, 'I')}
    if ty == 'Particle':
        return 96, dict(PARTICLE)
    m = re.match(r'boost::numeric::ublas::vector<double, boost::numeric::ublas::bounded_array<double, (\d+)', ty)
    if m:
        n = int(m.group(1))
        d = {0: (8, n)}
        for i in range(n):
            d[8 + 8 * i] = (8, 'R')
        return 8 + 8 * n, d
    m = re.match(r'boost::numeric::ublas::matrix<double, boost::numeric::ublas::basic_row_major<[^>]*>, boost::numeric::ublas::bounded_array<double, (\d+)', ty)
    if m:
        n = int(m.group(1))
        q = int(round(n ** 0.5))
        d = {0: (8, q), 8: (8, q), 16: (8, n)}
        for i in range(n):
            d[24 + 8 * i] = (8, 'R')
        return 24 + 8 * n, d
    return None


def first_targ(d):
    """first template argument of std::vector<...>"""
    i = d.index('<') + 1
    depth = 0
    j = i
    while True:
        c = d[j]
        if c == '<':
            depth += 1
        elif c == '>':
            if depth == 0:
                break
            depth -= 1
        elif c == ',' and depth == 0:
            break
        j += 1
    return d[i:j]


class Lib:
    def __init__(self, prog):
        self.prog = prog
        names = set()
        for m in prog.mods.values():
            names |= set(m.fn_src) | set(m.decls)
        names = sorted(names)
        self.dm = build.demangle(names)
        self._c = {}
        self.extra = []      # (regex, handler) additional, tried first

    def dem(self, n):
        return self.dm.get(n, n)

    def exc_base(self, ex, ti):
        if ti in STD_BASE:
            return STD_BASE[ti]
        q = ti
        gi = self.prog.global_init(q)
        if gi is None or gi[2] is None or gi[2][0] != 'agg':
            return None
        ops = gi[2][2]
        if len(ops) >= 3 and ops[2][1][0] == 'g':
            return ops[2][1][1]
        # multiple inheritance: { vtable, name, flags, n, base0, off0 ...}
        for t, o in ops[2:]:
            if o[0] == 'g':
                return o[1]
        return None

    def lookup(self, name, mod):
        if name in self._c:
            return self._c[name]
        d = self.dm.get(name, name)
        s = build.strip_templates(d)
        h = None
        for rx, hh in self.extra:
            if rx.search(s):
                h = hh
                break
        if h is None and build.is_library(name):
            for rx, hh in RULES:
                if rx.match(s):
                    h = hh
                    break
        self._c[name] = h
        return h


RULES = []


def rule(rx):
    def f(h):
        RULES.append((re.compile(rx), h))
        return h
    return f


# ------------------------------------------------------------------ ghosts
def gget(st, p, default=None):
    return st.mem[p.r].cells.get(('g', icst(p.o)), default)


def gset(st, p, v):
    st.rw(p.r).cells[('g', icst(p.o))] = v


def gdel(st, p):
    r = st.rw(p.r)
    r.cells.pop(('g', icst(p.o)), None)


def cstr_at(st, p):
    """char const* -> string value"""
    if p.r is None:
        return ('null',)
    reg = st.mem[p.r]
    if reg.tag and reg.tag[0] == 'cstr':
        return reg.tag[1]
    o = icst(p.o)
    for k, v in reg.cells.items():
        if isinstance(k, tuple) and k[0] == 'cstr' and k[1] <= o < k[1] + len(v):
            b = v[o - k[1]:]
            return ('lit', b.split(b'\0')[0].decode('latin1'))
    if o == 0 and reg.base == 'sym':
        return ('sym', 'c:' + reg.name)
    raise Unknown("char* contents of %s" % reg.name)


def strval(st, p):
    reg = st.mem[p.r]
    if reg.stride:
        # text member of an element of an array
        q, r = divmod(p.o.args[1], reg.stride)
        if any(c % reg.stride for _, c in p.o.args[0]) or reg.base != 'sym':
            raise Unknown("text at %s of %s" % (p.o, reg.name))
        return ('elem', reg.fam if isinstance(reg.fam, str) else reg.name, iadd(iscale_div(p.o, reg.stride), ic(q)), r)
    v = gget(st, p)
    if v is not None:
        return v
    if reg.base == 'sym':
        return ('sym', reg.names.get(icst(p.o), '%s+%s' % (reg.name, icst(p.o))))
    raise Unknown("string object not initialised")


def iscale_div(o, s):
    return mk('lin', 'I', tuple((a, c // s) for a, c in o.args[0]), 0)


def streq(a, b):
    if a == b:
        return TRUE
    if a[0] == 'lit' and b[0] == 'lit':
        return FALSE
    if a[0] == 'elem' or b[0] == 'elem':
        if a[0] != 'elem':
            a, b = b, a
        if b[0] == 'elem':
            raise Unknown("comparison of two texts of an array")
        return pred('streq', (a[1], a[3]), a[2], b)
    if repr(b) < repr(a):
        a, b = b, a
    return pred('streq', a, b)


STR = r'std::__cxx11::basic_string::'


@rule(STR + r'basic_string\(char const\*, std::allocator const&\)')
def str_ctor_c(ex, st, a, n):
    gset(st, a[0], cstr_at(st, a[1]))


@rule(STR + r'basic_string\(std::__cxx11::basic_string ?(const&|&&)\)')
def str_ctor_cp(ex, st, a, n):
    gset(st, a[0], strval(st, a[1]))


@rule(STR + r'basic_string\(\)')
def str_ctor_0(ex, st, a, n):
    gset(st, a[0], ('lit', ''))


@rule(STR + r'(~basic_string\(\)|_M_dispose\(\))')
def str_dtor(ex, st, a, n):
    if isinstance(a[0], Ptr) and isinstance(a[0].r, int):
        gdel(st, a[0])


@rule(STR + r'operator=\(std::__cxx11::basic_string ?(const&|&&)\)')
def str_assign(ex, st, a, n):
    gset(st, a[0], strval(st, a[1]))
    return a[0]


@rule(STR + r'(_M_assign|assign)\(std::__cxx11::basic_string const&\)')
def str_assign2(ex, st, a, n):
    gset(st, a[0], strval(st, a[1]))
    return a[0]


@rule(STR + r'(operator=|assign)\(char const\*\)')
def str_assign_c(ex, st, a, n):
    gset(st, a[0], cstr_at(st, a[1]))
    return a[0]


@rule(STR + r'swap\(')
def str_swap(ex, st, a, n):
    x, y = strval(st, a[0]), strval(st, a[1])
    gset(st, a[0], y)
    gset(st, a[1], x)


@rule(STR + r'c_str\(\) const|' + STR + r'data\(\) const|' + STR + r'_M_data\(\) const')
def str_cstr(ex, st, a, n):
    v = strval(st, a[0])
    r = ex.alloc(st, 'cstr')
    r.tag = ('cstr', v)
    return Ptr(r.id, I0)


@rule(STR + r'(size|length)\(\) const')
def str_size(ex, st, a, n):
    v = strval(st, a[0])
    if v[0] == 'lit':
        return ic(len(v[1]))
    return strlen_of(st, v)[0]


def strlen_of(st, v):
    """the length of an unknown string, and whether it is empty: no characters exactly when it equals \"\""""
    r, e = iatom('strlen', v), streq(v, ('lit', ''))
    st.assume(ile(I0, r))
    st.assume(bor(band(ieq(r, I0), e), band(ile(I1, r), bnot(e))))
    return r, e


@rule(STR + r'empty\(\) const')
def str_empty(ex, st, a, n):
    v = strval(st, a[0])
    if v[0] == 'lit':
        return streq(v, ('lit', ''))
    return strlen_of(st, v)[1]


@rule(STR + r'clear\(\)')
def str_clear(ex, st, a, n):
    gset(st, a[0], ('lit', ''))


@rule(STR + r'compare\((char const\*|std::__cxx11::basic_string const&)\) const')
def str_compare(ex, st, a, n):
    x = strval(st, a[0])
    d = ex.lib.dem(n)
    y = cstr_at(st, a[1]) if 'compare(char const*)' in d else strval(st, a[1])
    if x[0] == 'lit' and y[0] == 'lit':
        return ic((x[1] > y[1]) - (x[1] < y[1]))
    r = iatom('strcmp', x, y)
    st.assume(bor(streq(x, y), bnot(ieq(r, I0))))
    return iite(streq(x, y), I0, r)


@rule(r'(bool )?std::operator(==|!=)\(std::__cxx11::basic_string const&, (char const\*|std::__cxx11::basic_string const&)\)')
def str_eq(ex, st, a, n):
    x = strval(st, a[0])
    s = build.strip_templates(ex.lib.dem(n))
    y = cstr_at(st, a[1]) if s.endswith('char const*)') else strval(st, a[1])
    r = streq(x, y)
    return r if 'operator==' in s else bnot(r)


@rule(r'(bool )?std::operator<\(std::__cxx11::basic_string const&, std::__cxx11::basic_string const&\)')
def str_lt(ex, st, a, n):
    x, y = strval(st, a[0]), strval(st, a[1])
    if x[0] == 'lit' and y[0] == 'lit':
        return TRUE if x[1] < y[1] else FALSE
    if x == y:
        return FALSE
    return pred('strlt', x, y)


@rule(r'.*std::operator\+\(')
def str_plus(ex, st, a, n):
    s = build.strip_templates(ex.lib.dem(n))
    args = s[s.index('operator+(') + 10:-1].split(', ')
    vs = []
    for p, t in zip(a[1:], args):
        if 'char const*' in t:
            vs.append(cstr_at(st, p))
        elif 'basic_string' in t:
            vs.append(strval(st, p))
        else:
            raise Unknown("string +")
    x, y = vs
    v = ('lit', x[1] + y[1]) if x[0] == y[0] == 'lit' else ('cat', x, y)
    gset(st, a[0], v)


@rule(STR + r'(operator\+=|append)\((char const\*|std::__cxx11::basic_string const&)\)')
def str_append(ex, st, a, n):
    s = build.strip_templates(ex.lib.dem(n))
    y = cstr_at(st, a[1]) if s.endswith('char const*)') else strval(st, a[1])
    x = strval(st, a[0])
    gset(st, a[0], ('lit', x[1] + y[1]) if x[0] == y[0] == 'lit' else ('cat', x, y))
    return a[0]


@rule(r'strlen$')
def c_strlen(ex, st, a, n):
    v = cstr_at(st, a[0])
    if v[0] == 'lit':
        return ic(len(v[1]))
    r = iatom('strlen', v)
    st.assume(ile(I0, r))
    return r


@rule(r'strcmp$')
def c_strcmp(ex, st, a, n):
    x, y = cstr_at(st, a[0]), cstr_at(st, a[1])
    if x[0] == 'lit' and y[0] == 'lit':
        return ic((x[1] > y[1]) - (x[1] < y[1]))
    r = iatom('strcmp', x, y)
    st.assume(bor(streq(x, y), bnot(ieq(r, I0))))
    return iite(streq(x, y), I0, r)


# ------------------------------------------------------------------ streams: no observable effect modelled
@rule(r'.*std::(basic_ostream|ostream|basic_ios|ios_base|locale|basic_ofstream|__cxx11::basic_ostringstream|__cxx11::basic_stringbuf).*(operator<<|flags|precision|width|fill|getloc|imbue|locale|~|setf|unsetf|copyfmt|setstate|clear|init|put|flush|write|endl)')
def stream_op(ex, st, a, n):
    s = ex.lib.dem(n)
    if s.endswith('::flags() const') or s.endswith('::precision() const'):
        return ic(0)
    if '_ZStls' in n or 'operator<<' in s:
        return a[0]
    return a[0] if a else None


@rule(r'std::__cxx11::basic_ostringstream::basic_ostringstream\(')
def oss_ctor(ex, st, a, n):
    # only the virtual-base offset is ever read back by inlined code
    r = ex.alloc(st, 'oss-vtbl')
    r.base = 'zero'
    ex.store(st, a[0], Ptr(r.id, ic(4096)), PTR)


@rule(r'std::__cxx11::basic_ostringstream::str\(\) const')
def oss_str(ex, st, a, n):
    gset(st, a[0], ('sym', fresh('msg')))


@rule(r'std::ostream::operator<<|std::basic_ostream& std::operator<<|std::basic_ostream& std::')
def ostream_op(ex, st, a, n):
    return a[0]


# ------------------------------------------------------------------ exceptions
@rule(r'__cxa_allocate_exception$')
def cxa_alloc(ex, st, a, n):
    r = ex.alloc(st, 'exception')
    return Ptr(r.id, I0)


@rule(r'__cxa_throw$')
def cxa_throw(ex, st, a, n):
    ti = a[1].r
    ti = st.mem[ti].tag[1] if isinstance(ti, int) else ti[3:]
    return Throw(ti, a[0])


@rule(r'__cxa_free_exception$')
def cxa_free(ex, st, a, n):
    return None


@rule(r'__cxa_begin_catch$')
def cxa_begin(ex, st, a, n):
    st.caught.append(st.exc)
    return a[0]


@rule(r'__cxa_end_catch$')
def cxa_end(ex, st, a, n):
    if st.caught:
        st.caught.pop()


@rule(r'__cxa_rethrow$')
def cxa_rethrow(ex, st, a, n):
    e = st.caught[-1]
    return Throw(e[0], e[1])


@rule(r'std::(runtime_error|logic_error|invalid_argument|out_of_range|exception|length_error|domain_error|range_error|bad_alloc)::')
def std_exc(ex, st, a, n):
    return None


@rule(r'std::__throw_(out_of_range_fmt|out_of_range|length_error|logic_error|bad_alloc|bad_function_call|bad_array_new_length|bad_cast)')
def std_throw(ex, st, a, n):
    m = re.search(r'__throw_(\w+?)(_fmt)?(\(|$)', ex.lib.dem(n))
    t = {'out_of_range': '_ZTISt12out_of_range', 'length_error': '_ZTISt12length_error', 'logic_error': '_ZTISt11logic_error',
         'bad_alloc': '_ZTISt9bad_alloc', 'bad_array_new_length': '_ZTISt20bad_array_new_length',
         'bad_cast': '_ZTISt8bad_cast'}.get(m.group(1), '_ZTISt9exception')
    return Throw(t)


@rule(r'__clang_call_terminate$|_ZSt9terminatev|std::terminate')
def terminate(ex, st, a, n):
    return Throw('TERMINATE')


# ------------------------------------------------------------------ allocation
@rule(r'operator new(\[\])?\(unsigned long')
def op_new(ex, st, a, n):
    r = ex.alloc(st, 'heap', size=icst(a[0]))
    return Ptr(r.id, I0)


@rule(r'operator delete(\[\])?\(')
def op_delete(ex, st, a, n):
    return None


@rule(r'(_Znwm|_Znam)$')
def op_new2(ex, st, a, n):
    return op_new(ex, st, a, n)


# ------------------------------------------------------------------ libm
@rule(r'(sinh|cosh|tan|tanh|asin|acos|atan|atan2|cbrt|fmod|sin|cos|pow|exp|log|log10|fabs|hypot|round|floor|ceil)$')
def libm(ex, st, a, n):
    return ex.math(n, a)


@rule(r'(fmax|fmin)$')
def libm_minmax(ex, st, a, n):
    x, y = a[0], a[1]
    return rite(rle(y, x), x, y) if n == 'fmax' else rite(rle(x, y), x, y)


# ------------------------------------------------------------------ std::vector
def vec(ex, st, p):
    """(begin Ptr, end Ptr)"""
    b = ex.load(st, p, PTR)
    e = ex.load(st, Ptr(p.r, iadd(p.o, ic(8))), PTR)
    return b, e


def vec_set(ex, st, p, b, e):
    ex.store(st, p, b, PTR)
    ex.store(st, Ptr(p.r, iadd(p.o, ic(8))), e, PTR)
    ex.store(st, Ptr(p.r, iadd(p.o, ic(16))), e, PTR)


def vec_size(ex, st, p, stride):
    b, e = vec(ex, st, p)
    if b.r is None and e.r is None:
        return I0
    if b.r != e.r:
        raise Unknown("inconsistent vector")
    return idiv(isub(e.o, b.o), stride)


def vec_info(ex, n):
    d = ex.lib.dem(n)
    i = d.find('std::vector<')
    ty = first_targ(d[i:])
    info = elem_info(ty)
    if info is None:
        h = getattr(ex, 'elem_types', {}).get(ty)
        if h is None:
            raise Unknown("std::vector of %s" % ty)
        return h
    return info


def vec_new(ex, st, p, n, stride, layout, base='uninit', name='vec', log=(), fam=None):
    r = ex.alloc(st, name, base=base, stride=stride, layout=layout, count=n, fam=fam)
    r.log = log
    b = Ptr(r.id, I0)
    vec_set(ex, st, p, b, Ptr(r.id, iscale(n, stride)))
    return r


def vec_copy_into(ex, st, dst, src, stride, layout):
    sb, se = vec(ex, st, src)
    if sb.r is None:
        ex.store(st, dst, NULL, PTR)
        ex.store(st, Ptr(dst.r, iadd(dst.o, ic(8))), NULL, PTR)
        ex.store(st, Ptr(dst.r, iadd(dst.o, ic(16))), NULL, PTR)
        return
    n = idiv(isub(se.o, sb.o), stride)
    sr = st.mem[sb.r]
    si, so = ex.idx(sr, sb.o)
    st.own.discard(sb.r)
    if st.reads is not None:
        st.reads.append((sb.r, fresh('range')))
    vec_new(ex, st, dst, n, stride, layout, name='copy of ' + sr.name, log=(('copy', I0, n, sr, si),))


V = r'std::vector::'


@rule(V + r'vector\(\)')
def vec_ctor0(ex, st, a, n):
    if first_targ(ex.lib.dem(n)[ex.lib.dem(n).find('std::vector<'):]).strip() == 'double':
        # storage that push_back extends in place (assumed: no reference into a vector is used after a push_back on it)
        r = ex.alloc(st, 'vec', base='uninit', stride=8, layout={0: (8, 'R')})
        r.tag = ('grow',)
        vec_set(ex, st, a[0], Ptr(r.id, I0), Ptr(r.id, I0))
        return
    for o in (0, 8, 16):
        ex.store(st, Ptr(a[0].r, iadd(a[0].o, ic(o))), NULL, PTR)


@rule(V + r'vector\(std::vector const&\)')
def vec_cctor(ex, st, a, n):
    s, l = vec_info(ex, n)
    vec_copy_into(ex, st, a[0], a[1], s, l)


@rule(V + r'operator=\(std::vector const&\)')
def vec_assign(ex, st, a, n):
    if a[0] == a[1]:
        return a[0]
    g = gget(st, a[1])
    if g is not None and g[0] == 'opaque':
        gset(st, a[0], g)
        return a[0]
    s, l = vec_info(ex, n)
    vec_copy_into(ex, st, a[0], a[1], s, l)
    return a[0]


@rule(V + r'(operator=|vector)\(std::vector&&\)')
def vec_move(ex, st, a, n):
    for o in (0, 8, 16):
        x = ex.load(st, Ptr(a[1].r, iadd(a[1].o, ic(o))), PTR)
        ex.store(st, Ptr(a[0].r, iadd(a[0].o, ic(o))), x, PTR)
        ex.store(st, Ptr(a[1].r, iadd(a[1].o, ic(o))), NULL, PTR)
    return a[0]


@rule(V + r'swap\(std::vector&\)')
def vec_swap(ex, st, a, n):
    for o in (0, 8, 16):
        p, q = Ptr(a[0].r, iadd(a[0].o, ic(o))), Ptr(a[1].r, iadd(a[1].o, ic(o)))
        x, y = ex.load(st, p, PTR), ex.load(st, q, PTR)
        ex.store(st, p, y, PTR)
        ex.store(st, q, x, PTR)


@rule(V + r'~vector\(\)')
def vec_dtor(ex, st, a, n):
    return None


@rule(V + r'clear\(\)')
def vec_clear(ex, st, a, n):
    b = ex.load(st, a[0], PTR)
    ex.store(st, Ptr(a[0].r, iadd(a[0].o, ic(8))), b, PTR)


@rule(V + r'reserve\(unsigned long\)')
def vec_reserve(ex, st, a, n):
    # capacity is not observable through the contracts used here
    return None


def default_cells(ex, stride, layout, info_ty=None):
    """value-initialised element"""
    d = {}
    for o, (s, k) in layout.items():
        if stride == 96:
            d[o] = (s, R0 if o == 80 else rc(float('nan')))     # Particle(): phis = 0, rest NaN
        elif isinstance(k, int):
            d[o] = (s, I0)                                       # default ublas objects have size 0
        elif k == 'R':
            d[o] = (s, R0) if stride == 8 else (s, UNDEF)
        else:
            d[o] = (s, I0)
    return d


def vec_resize_to(ex, st, p, m, stride, layout, cells):
    """resize to m elements; new elements get `cells`"""
    b, e = vec(ex, st, p)
    kv = ivar('$r')
    fill = ('map', kv, I0, m, cells)
    if b.r is None:
        vec_new(ex, st, p, m, stride, layout, name='vec', log=(fill,))
        return
    old = idiv(isub(e.o, b.o), stride)
    sr = st.mem[b.r]
    si, so = ex.idx(sr, b.o)
    keep = iite(ile(old, m), old, m)
    if entails(st.pc, ile(old, m)):
        keep = old
    elif entails(st.pc, ile(m, old)):
        keep = m
    if keep is I0:
        log = (fill,)
    else:
        st.own.discard(b.r)
        log = (fill, ('copy', I0, keep, sr, si))
    vec_new(ex, st, p, m, stride, layout, name=sr.name, log=log)


@rule(V + r'resize\(unsigned long\)')
def vec_resize(ex, st, a, n):
    s, l = vec_info(ex, n)
    lay = {o: (sz, 'I' if isinstance(k, int) else k) for o, (sz, k) in l.items()}
    vec_resize_to(ex, st, a[0], a[1], s, lay, default_cells(ex, s, l))


@rule(V + r'resize\(unsigned long, ')
def vec_resize_v(ex, st, a, n):
    s, l = vec_info(ex, n)
    cells = {o: c for o, c in ex.collect(st, st.mem[a[2].r], a[2].o, s)}
    vec_resize_to(ex, st, a[0], a[1], s, l, cells)


@rule(V + r'vector\(unsigned long, (?!std::allocator)')
def vec_ctor_n(ex, st, a, n):
    s, l = vec_info(ex, n)
    for o in (0, 8, 16):
        ex.store(st, Ptr(a[0].r, iadd(a[0].o, ic(o))), NULL, PTR)
    cells = {o: c for o, c in ex.collect(st, st.mem[a[2].r], a[2].o, s)}
    vec_resize_to(ex, st, a[0], a[1], s, l, cells)


@rule(V + r'vector\(unsigned long, std::allocator')
def vec_ctor_n0(ex, st, a, n):
    s, l = vec_info(ex, n)
    for o in (0, 8, 16):
        ex.store(st, Ptr(a[0].r, iadd(a[0].o, ic(o))), NULL, PTR)
    lay = {o: (sz, 'I' if isinstance(k, int) else k) for o, (sz, k) in l.items()}
    vec_resize_to(ex, st, a[0], a[1], s, lay, default_cells(ex, s, l))


@rule(V + r'vector\(double const\*, double const\*')
def vec_ctor_range(ex, st, a, n):
    if a[1].r != a[2].r or icst(isub(a[2].o, a[1].o)) is None:
        raise Unknown("vector from a range")
    m = icst(isub(a[2].o, a[1].o)) // 8
    vs = [ex.load(st, Ptr(a[1].r, iadd(a[1].o, ic(8 * k))), ('d',)) for k in range(m)]
    vec_new(ex, st, a[0], ic(m), 8, {0: (8, 'R')}, log=tuple(('pt', ic(k), 0, 8, v) for k, v in enumerate(vs)))


@rule(V + r'push_back\(')
def vec_push(ex, st, a, n):
    s, l = vec_info(ex, n)
    b, e = vec(ex, st, a[0])
    if b.r is not None and st.mem[b.r].tag == ('grow',) and s == 8:
        ex.store(st, e, ex.load(st, a[1], ('d',)), ('d',))
        vec_set(ex, st, a[0], b, Ptr(e.r, iadd(e.o, ic(8))))
        return
    cells = {o: c for o, c in ex.collect(st, st.mem[a[1].r], a[1].o, s)}
    old = I0 if b.r is None else idiv(isub(e.o, b.o), s)
    vec_resize_to(ex, st, a[0], iadd(old, I1), s, l, cells)


@rule(V + r'at\(unsigned long\)')
def vec_at(ex, st, a, n):
    s, l = vec_info(ex, n)
    b, e = vec(ex, st, a[0])
    m = I0 if b.r is None else idiv(isub(e.o, b.o), s)
    c = ilt(a[1], m)
    d = ex.decide(st, c)
    ok = Ptr(b.r, iadd(b.o, iscale(a[1], s)))
    if d is True:
        return ok
    if d is False:
        return Throw('_ZTISt12out_of_range')
    s2 = st.clone()
    st.assume(c)
    s2.assume(bnot(c))
    return Fork([(st, ok), (s2, Throw('_ZTISt12out_of_range'))])


# ------------------------------------------------------------------ misc
@rule(r'__dynamic_cast$')
def dyn_cast(ex, st, a, n):
    reg = st.mem[a[0].r]
    dst = st.mem[a[2].r].tag[1] if isinstance(a[2].r, int) else a[2].r[3:]
    tag = reg.tag
    if a[0].o.op == 'ic' or icst(a[0].o) is not None:
        tag = reg.cells.get(('tag', icst(a[0].o)), tag)
    if tag and tag[0] == 'obj':
        x = tag[1]
        while x is not None:
            if x == dst:
                return a[0]
            x = ex.lib.exc_base(ex, x)
        return NULL
    raise Unknown("dynamic_cast of an object of unspecified type")


@rule(r'(__cxa_atexit|__cxa_guard_release|__cxa_guard_abort)$')
def noop0(ex, st, a, n):
    return I0


@rule(r'boost::shared_ptr::~shared_ptr\(\)|boost::variant::~variant\(\)|boost::any::~any\(\)')
def noop(ex, st, a, n):
    return None


@rule(r'numeric_table::operator=\(numeric_table const&\)')
def opaque_assign(ex, st, a, n):
    g = gget(st, a[1])
    if g is None or g[0] != 'opaque':
        raise Unknown("assignment of a table of unknown value")
    gset(st, a[0], g)
    return a[0]


@rule(r'boost::throw_exception|void boost::throw_exception')
def boost_throw(ex, st, a, n):
    d = ex.lib.dem(n)
    if 'bad_lexical_cast' in d:
        return Throw('_ZTIN5boost16bad_lexical_castE')
    if 'bad_get' in d:
        return Throw('_ZTIN5boost7bad_getE')
    return Throw('_ZTISt9exception')


# ublas LU (used by inverse()): contract attached in contracts.py through `extra`
