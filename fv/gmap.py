"""Assumed contracts of std::map, boost::shared_ptr and boost::variant, in terms of ghost values.

map value      ('m', id) | ('empty',) | ('put', M, key, val) | ('del', M, key) | ('merge', M, N)   (merge: M wins)
variant value  ('vsym', id..) | ('vt', type, payload) | ('ite', cond, a, b)
shared_ptr     pointee pointer at offset 0; owners of a pointee: known ones counted in st.ghost[('rc', region)], unknown
               ones are the uninterpreted predicate others(region)
A map may be modified only while its (single) shared owner is the only one: every mutation records the ownership
condition in st.trace as ('mutate', region, unique?)."""
import re
from terms import *
from sym import *
import build
import lib as LIB
from lib import gget, gset, gdel, strval, streq, cstr_at, first_targ, vec
from logic import feasible, entails

STRT = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>'


# ------------------------------------------------------------------ keys
def keyeq(a, b):
    if isinstance(a, tuple) and a and a[0] == 'key2':
        return band(streq(a[1], b[1]), ieq(a[2], b[2]))
    return streq(a, b)


def lookup(m, k):
    """-> (present, value or None)"""
    t = m[0]
    if t == 'm':
        return pred('in', m[1], k), ('vsym', m[1], k)
    if t == 'empty':
        return FALSE, None
    if t == 'put':
        e = keyeq(k, m[2])
        p, v = lookup(m[1], k)
        if e is TRUE:
            return TRUE, m[3]
        if e is FALSE:
            return p, v
        return bor(e, p), m[3] if v is None else ('ite', e, m[3], v)
    if t == 'del':
        e = keyeq(k, m[2])
        p, v = lookup(m[1], k)
        return band(bnot(e), p), v
    if t == 'merge':
        p, v = lookup(m[1], k)
        q, w = lookup(m[2], k)
        if v is None:
            return q, w
        if w is None:
            return p, v
        return bor(p, q), ('ite', p, v, w)
    raise Unknown("map value %r" % (m,))


def vnorm(pc, v):
    """resolve the alternatives decided by pc"""
    while v is not None and v[0] == 'ite':
        if v[1] is TRUE or entails(pc, v[1]):
            v = v[2]
        elif v[1] is FALSE or entails(pc, bnot(v[1])):
            v = v[3]
        else:
            break
    return v


def leaves(pc, v):
    """all (pc, value) alternatives"""
    v = vnorm(pc, v)
    if v is not None and v[0] == 'ite':
        return leaves(pc + [v[1]], v[2]) + leaves(pc + [bnot(v[1])], v[3])
    return [(pc, v)]


TYPES = ('double', 'vec', 'string', 'cvec')


def vtype(d):
    d = d.replace(' >', '>')
    if re.match(r'double\b', d):
        return 'double'
    if re.match(STRT, d):
        return 'string'
    if d.startswith('std::vector<double'):
        return 'vec'
    if d.startswith('std::vector<Config'):
        return 'cvec'
    if d.startswith('std::vector<std::__cxx11::basic_string'):
        return 'strlist'
    if d.startswith('boost::shared_ptr<Config'):
        return 'config'
    raise Unknown("variant alternative " + d)


def vis(v, T):
    if v[0] == 'vt':
        return TRUE if v[1] == T else FALSE
    if v[0] == 'ite':
        return bite(v[1], vis(v[2], T), vis(v[3], T))
    return pred('is', T, v)


def payload(v, T):
    """the payload of type T of variant value v (given that it has that type)"""
    if v[0] == 'vt':
        return v[2]
    if v[0] == 'ite':
        a, b = payload(v[2], T), payload(v[3], T)
        if T == 'double':
            return rite(v[1], a, b)
        return a if a == b else ('ite', v[1], a, b)
    if T == 'double':
        return fn_value(v)
    return ('pay', T, v)


def fn_value(v):
    return rvar('num' + repr(v[1:]))


# ------------------------------------------------------------------ variants in memory
def put_payload(ex, st, p, T, v):
    q = Ptr(p.r, iadd(p.o, ic(8)))
    if T == 'double':
        ex.store(st, q, v, ('d',))
    elif T == 'string':
        gset(st, q, v)
    else:
        gset(st, q, ('opaque', v))


def get_payload(ex, st, p, T):
    q = Ptr(p.r, iadd(p.o, ic(8)))
    if T == 'double':
        return ex.load(st, q, ('d',))
    if T == 'string':
        return strval(st, q)
    g = gget(st, q)
    if g is None:
        raise Unknown("variant payload without value")
    return g[1]


def vkey(p):
    return ('v', icst(p.o))


def vget(ex, st, p):
    reg = st.mem[p.r]
    c = reg.cells.get(vkey(p))
    if c is None:
        if reg.base == 'sym':
            return ('vsym', reg.name, icst(p.o))
        raise Unknown("variant not initialised")
    if c[0] == 'vt':
        return ('vt', c[1], get_payload(ex, st, p, c[1]))
    return c


def vset(ex, st, p, v):
    reg = st.rw(p.r)
    if v[0] == 'vt':
        reg.cells[vkey(p)] = ('vt', v[1])
        put_payload(ex, st, p, v[1], v[2])
    else:
        reg.cells[vkey(p)] = v
    if reg.tag and reg.tag[0] == 'node' and reg.tag[3] == icst(p.o):
        mp, k = reg.tag[1], reg.tag[2]
        mutate(st, mp)
        mapset(st, mp, ('put', mapval(st, mp), k, v))


def value_of_arg(ex, st, p, T):
    """value of an object of alternative type T at p"""
    if T == 'double':
        return ex.load(st, p, ('d',)) if isinstance(p, Ptr) else p
    if T == 'string':
        return strval(st, p)
    g = gget(st, p)
    if g is not None and g[0] == 'opaque':
        return g[1]
    if T in ('vec', 'cvec', 'strlist'):
        b, e = vec(ex, st, p)
        if b == e:
            return ('novec',)
        reg = st.mem[b.r]
        if reg.fam is not None and not reg.log:
            return ('vecof', reg.name)
    raise Unknown("value of a %s object" % T)


# ------------------------------------------------------------------ maps in memory
def mapval(st, p):
    g = gget(st, p)
    if g is not None:
        if g[0] != 'map':
            raise Unknown("map expected, %r" % (g,))
        return g[1]
    reg = st.mem[p.r]
    if reg.base == 'sym':
        return ('m', '%s+%s' % (reg.name, icst(p.o)))
    raise Unknown("map not initialised: %s" % reg.name)


def mapset(st, p, m):
    gset(st, p, ('map', m))


def unique_cond(st, rid):
    n = st.ghost.get(('rc', rid))
    if n is None:
        return TRUE                     # not owned through a shared_ptr
    return bnot(pred('others', rid)) if n == 1 and st.ghost.get(('sharable', rid)) else (TRUE if n == 1 else FALSE)


def mutate(st, mp):
    st.trace.append(('mutate', mp.r, entails(st.pc, unique_cond(st, mp.r)), st.ghost.get(('rc', mp.r))))


def map_types(d):
    i = d.find('std::map<')
    if i < 0:
        i = d.find('std::_Rb_tree')
        j = d.find('std::pair<', i)
        k = first_targ(d[j:])
        k = re.sub(r' const$', '', k)
        rest = d[j + len('std::pair<') + len(first_targ(d[j:])) + 2:]
        return k, first_targ('<' + rest)
    k = first_targ(d[i:])
    rest = d[i + len('std::map<') + len(k) + 2:]
    return k, first_targ('<' + rest)


def ksize(k):
    if k == 'Machine::LookupKey':
        return 40
    if re.match(STRT, k):
        return 32
    raise Unknown("map key " + k)


def keyval(ex, st, p, kt):
    if kt == 'Machine::LookupKey':
        return ('key2', strval(st, p), ex.load(st, Ptr(p.r, iadd(p.o, ic(32))), ('i', 64)))
    return strval(st, p)


def is_variant(vt):
    return vt.startswith('boost::variant<')


def node(ex, st, mp, key, val, kt, vt):
    """region of a map node holding (key, val)"""
    ks = ksize(kt)
    memo = ('node', mp.r, icst(mp.o), key, repr(mapval(st, mp)))
    r = st.ghost.get(memo)
    if r is not None:
        return Ptr(r, I0)
    reg = ex.alloc(st, 'node of %s' % st.mem[mp.r].name, base='sym')
    reg.tag = ('node', mp, key, 32 + ks)
    if kt == 'Machine::LookupKey':
        reg.cells[('g', 32)] = key[1]
        ex.store(st, Ptr(reg.id, ic(64)), key[2], ('i', 64))
    else:
        reg.cells[('g', 32)] = key
    p = Ptr(reg.id, ic(32 + ks))
    if is_variant(vt):
        if val[0] == 'vt':
            reg.cells[vkey(p)] = ('vt', val[1])
            put_payload(ex, st, p, val[1], val[2])
        else:
            reg.cells[vkey(p)] = val
    else:
        h = getattr(ex, 'map_value', None)
        if h is None:
            raise Unknown("map of " + vt)
        h(ex, st, p, mp, key, val, vt)
    st.ghost[memo] = reg.id
    return Ptr(reg.id, I0)


def m_ctor0(ex, st, a, n):
    mapset(st, a[0], ('empty',))


def m_copy(ex, st, a, n):
    mapset(st, a[0], mapval(st, a[1]))
    return a[0]


def m_dtor(ex, st, a, n):
    return None


def m_swap(ex, st, a, n):
    x, y = mapval(st, a[0]), mapval(st, a[1])
    mapset(st, a[0], y)
    mapset(st, a[1], x)


def end_of(p):
    return Ptr(p.r, iadd(p.o, ic(8)))


def begin_of(p):
    return Ptr(p.r, iadd(p.o, ic(24)))


def m_end(ex, st, a, n):
    return end_of(a[0])


def m_begin(ex, st, a, n):
    return begin_of(a[0])


def m_find(ex, st, a, n):
    kt, vt = map_types(ex.lib.dem(n))
    k = keyval(ex, st, a[1], kt)
    m = mapval(st, a[0])
    pr, v = lookup(m, k)
    d = ex.decide(st, pr)
    if d is False:
        return end_of(a[0])
    if d is True:
        return node(ex, st, a[0], k, vnorm(st.pc, v), kt, vt)
    s2 = st.clone()
    s2.assume(bnot(pr))
    st.assume(pr)
    return Fork([(st, node(ex, st, a[0], k, vnorm(st.pc, v), kt, vt)), (s2, end_of(a[0]))])


def m_count(ex, st, a, n):
    kt, vt = map_types(ex.lib.dem(n))
    pr, v = lookup(mapval(st, a[0]), keyval(ex, st, a[1], kt))
    return iite(pr, I1, I0)


def m_valptr(ex, st, a, n):
    return Ptr(a[0].r, iadd(a[0].o, ic(32)))


def m_empty(ex, st, a, n):
    m = mapval(st, a[0])

    def go(m):
        if m[0] == 'empty':
            return TRUE
        if m[0] == 'm':
            return pred('emptymap', m[1])
        if m[0] == 'put':
            return FALSE
        if m[0] == 'merge':
            return band(go(m[1]), go(m[2]))
        raise Unknown("empty() of %r" % (m,))
    return go(m)


def default_value(ex, st, vt):
    if is_variant(vt):
        return ('vt', 'double', R0)
    h = getattr(ex, 'map_default', None)
    if h is None:
        raise Unknown("default value of " + vt)
    return h(vt)


def m_index(ex, st, a, n):
    """operator[]: inserts a default constructed value when the key is absent"""
    kt, vt = map_types(ex.lib.dem(n))
    k = keyval(ex, st, a[1], kt)
    m = mapval(st, a[0])
    pr, v = lookup(m, k)
    d = ex.decide(st, pr)
    ks = ksize(kt)
    hit = lambda s: Ptr(node(ex, s, a[0], k, vnorm(s.pc, v), kt, vt).r, ic(32 + ks))

    def miss(s):
        mutate(s, a[0])
        dv = default_value(ex, s, vt)
        mapset(s, a[0], ('put', m, k, dv))
        return Ptr(node(ex, s, a[0], k, dv, kt, vt).r, ic(32 + ks))
    if d is True:
        return hit(st)
    if d is False:
        return miss(st)
    s2 = st.clone()
    s2.assume(bnot(pr))
    st.assume(pr)
    return Fork([(st, hit(st)), (s2, miss(s2))])


def m_insert(ex, st, a, n):
    """insert(pair): keeps an existing entry; returns {iterator, inserted}"""
    kt, vt = map_types(ex.lib.dem(n))
    k = keyval(ex, st, a[1], kt)
    ks = ksize(kt)
    vp = Ptr(a[1].r, iadd(a[1].o, ic(ks)))
    if is_variant(vt):
        val = vget(ex, st, vp)
    else:
        val = ('ptr', ex.load(st, vp, PTR))
    m = mapval(st, a[0])
    st.trace.append(('insert', a[0], k, val))
    pr, v = lookup(m, k)
    d = ex.decide(st, pr)

    def hit(s):
        return [node(ex, s, a[0], k, vnorm(s.pc, v), kt, vt), I0]

    def miss(s):
        mutate(s, a[0])
        mapset(s, a[0], ('put', m, k, val))
        return [node(ex, s, a[0], k, val, kt, vt), I1]
    if d is True:
        return hit(st)
    if d is False:
        return miss(st)
    s2 = st.clone()
    s2.assume(bnot(pr))
    st.assume(pr)
    return Fork([(st, hit(st)), (s2, miss(s2))])


def m_insert_range(ex, st, a, n):
    b, e = a[1], a[2]
    if b.r != e.r or icst(b.o) - icst(e.o) != 16:
        raise Unknown("insert of a partial range")
    src = Ptr(b.r, iadd(b.o, ic(-24)))
    mutate(st, a[0])
    mapset(st, a[0], ('merge', mapval(st, a[0]), mapval(st, src)))


def m_erase_key(ex, st, a, n):
    kt, vt = map_types(ex.lib.dem(n))
    k = keyval(ex, st, a[1], kt)
    m = mapval(st, a[0])
    pr, v = lookup(m, k)
    mutate(st, a[0])
    mapset(st, a[0], ('del', m, k))
    st.trace.append(('erase', a[0], k))
    return iite(pr, I1, I0)


def m_clear(ex, st, a, n):
    mutate(st, a[0])
    mapset(st, a[0], ('empty',))


def it_cmp(ex, st, a, n):
    x, y = ex.load(st, a[0], PTR), ex.load(st, a[1], PTR)
    eq = TRUE if x == y else FALSE
    if x.r == y.r and x != y:
        eq = ieq(x.o, y.o)
    return eq if 'operator==' in ex.lib.dem(n) else bnot(eq)


# ------------------------------------------------------------------ shared_ptr
def sp_get(ex, st, p):
    return ex.load(st, p, PTR)


def sp_null(ex, st, x):
    """-> Bool term: x is null"""
    if x.r is None:
        return TRUE
    c = st.mem[x.r].nullcond
    return c if c is not None else FALSE


def sp_set(ex, st, p, x):
    ex.store(st, p, x, PTR)


def acquire(st, x):
    if x.r is not None and ('rc', x.r) in st.ghost:
        st.ghost[('rc', x.r)] += 1


def release(st, x):
    if x.r is not None and ('rc', x.r) in st.ghost:
        st.ghost[('rc', x.r)] -= 1


def sp_ctor0(ex, st, a, n):
    sp_set(ex, st, a[0], NULL)


def sp_ctor_raw(ex, st, a, n):
    x = a[1]
    sp_set(ex, st, a[0], x)
    if x.r is not None:
        st.ghost[('rc', x.r)] = 1


def sp_copy(ex, st, a, n):
    x = sp_get(ex, st, a[1])
    acquire(st, x)
    sp_set(ex, st, a[0], x)


def sp_assign(ex, st, a, n):
    x = sp_get(ex, st, a[1])
    old = sp_get(ex, st, a[0])
    acquire(st, x)
    release(st, old)
    sp_set(ex, st, a[0], x)
    return a[0]


def sp_move(ex, st, a, n):
    x = sp_get(ex, st, a[1])
    sp_set(ex, st, a[0], x)
    sp_set(ex, st, a[1], NULL)


def sp_massign(ex, st, a, n):
    if a[0] == a[1]:
        return a[0]
    release(st, sp_get(ex, st, a[0]))
    sp_move(ex, st, a, n)
    return a[0]


def sp_dtor(ex, st, a, n):
    try:
        old = sp_get(ex, st, a[0])
    except Unknown:
        return None
    if isinstance(old, Ptr):
        release(st, old)


def sp_swap(ex, st, a, n):
    x, y = sp_get(ex, st, a[0]), sp_get(ex, st, a[1])
    sp_set(ex, st, a[0], y)
    sp_set(ex, st, a[1], x)


def sp_reset0(ex, st, a, n):
    release(st, sp_get(ex, st, a[0]))
    sp_set(ex, st, a[0], NULL)


def sp_reset(ex, st, a, n):
    release(st, sp_get(ex, st, a[0]))
    sp_ctor_raw(ex, st, a, n)


def sp_deref(ex, st, a, n):
    x = sp_get(ex, st, a[0])
    c = sp_null(ex, st, x)
    if not entails(st.pc, bnot(c)):
        raise Unknown("dereference of a possibly null shared_ptr")
    return x


def sp_getp(ex, st, a, n):
    return sp_get(ex, st, a[0])


def sp_bool(ex, st, a, n):
    return bnot(sp_null(ex, st, sp_get(ex, st, a[0])))


def sp_not(ex, st, a, n):
    return sp_null(ex, st, sp_get(ex, st, a[0]))


def sp_unique(ex, st, a, n):
    x = sp_get(ex, st, a[0])
    if x.r is None:
        return FALSE
    return unique_cond(st, x.r)


# ------------------------------------------------------------------ variant
def v_ctor0(ex, st, a, n):
    vset(ex, st, a[0], ('vt', 'double', R0))


def v_copy(ex, st, a, n):
    vset(ex, st, a[0], vget(ex, st, a[1]))
    return a[0]


def v_swap(ex, st, a, n):
    x, y = vget(ex, st, a[0]), vget(ex, st, a[1])
    vset(ex, st, a[0], y)
    vset(ex, st, a[1], x)


def conv_type(d, s):
    """the argument type of a converting constructor / assignment"""
    i = d.find('variant<')
    for m in (re.search(r'::variant<(.*)$', d), re.search(r'::operator=<(.*)$', d)):
        if m and m.start() > i:
            return vtype(re.sub(r'^(boost::disable_if.*?|)', '', m.group(1)))
    raise Unknown("variant conversion " + d[:80])


def tail_arg(d, what):
    """template argument of the member template `what<...>(` of d (outside other template argument lists)"""
    depth, i, last = 0, 0, None
    while i < len(d):
        if depth == 0 and d.startswith(what + '<', i):
            last = i
            i += len(what)
            depth += 1
        elif d[i] == '<':
            depth += 1
        elif d[i] == '>' and d[i - 1] != '-':
            depth -= 1
        elif d[i] == '(' and depth == 0 and last is not None:
            break
        i += 1
    if last is None:
        raise Unknown("template argument of %s in %s" % (what, d[:100]))
    return first_targ(d[last + len(what):])


def v_conv(ex, st, a, n):
    d = ex.lib.dem(n)
    T = vtype(tail_arg(d, '::variant'))
    x = a[1]
    if T == 'double':
        x = ex.load(st, a[1], ('d',)) if isinstance(a[1], Ptr) else a[1]
        vset(ex, st, a[0], ('vt', T, x))
    else:
        vset(ex, st, a[0], ('vt', T, value_of_arg(ex, st, a[1], T)))
    if '&&' in tail_args(d):
        moved(ex, st, a[1], T)


def tail_args(d):
    s = build.strip_templates(d)
    return s[s.rfind('('):]


def moved(ex, st, p, T):
    if T == 'string':
        gset(st, p, ('lit', ''))
    elif T in ('vec', 'cvec'):
        gset(st, p, ('opaque', ('novec',)))


def v_convassign(ex, st, a, n):
    d = ex.lib.dem(n)
    T = vtype(re.sub(r' const&$', '', tail_arg(d, '::operator=')))
    if T == 'double':
        x = ex.load(st, a[1], ('d',)) if isinstance(a[1], Ptr) else a[1]
    else:
        x = value_of_arg(ex, st, a[1], T)
    vset(ex, st, a[0], ('vt', T, x))
    return a[0]


def v_get(ex, st, a, n):
    """boost::get<T>(variant&): reference to the payload, or bad_get"""
    d = ex.lib.dem(n)
    i = d.find('boost::get<')
    T = vtype(first_targ(d[i + len('boost::'):]))
    v = vget(ex, st, a[0])
    ok = vis(v, T)
    p = a[0]

    def hit(s):
        if v[0] != 'vt':
            w = vnorm(s.pc, v)
            put_payload(ex, s, p, T, payload(w, T))
        return Ptr(p.r, iadd(p.o, ic(8)))
    x = ex.decide(st, ok)
    if x is True:
        return hit(st)
    if x is False:
        return Throw('_ZTIN5boost7bad_getE')
    s2 = st.clone()
    st.assume(ok)
    s2.assume(bnot(ok))
    return Fork([(st, hit(st)), (s2, Throw('_ZTIN5boost7bad_getE'))])


def vec_swap_ghost(ex, st, a, n):
    x, y = gget(st, a[0]), gget(st, a[1])
    if x is None and y is None:
        return LIB.vec_swap(ex, st, a, n)

    def val(p, g):
        if g is not None:
            return g
        b, e = vec(ex, st, p)
        if b == e:
            return ('opaque', ('novec',))
        raise Unknown("swap of a vector of unknown value")
    x, y = val(a[0], x), val(a[1], y)
    gset(st, a[0], y)
    gset(st, a[1], x)


def vec_copy_ghost(ex, st, a, n):
    g = gget(st, a[1])
    if g is not None and g[0] == 'opaque':
        gset(st, a[0], g)
        return a[0]
    h = LIB.vec_cctor if '::vector(' in build.strip_templates(ex.lib.dem(n)) else LIB.vec_assign
    return h(ex, st, a, n)


M = r'(?:.*\s)?std::map::'
S = r'(?:.*\s)?boost::shared_ptr::'
RULES = [(re.compile(r), h) for r, h in [
    (M + r'map\(\)$', m_ctor0), (M + r'(map|operator=)\(std::map ?(const&|&&)\)$', m_copy), (M + r'~map\(\)', m_dtor), (M + r'swap\(', m_swap),
    (M + r'c?end\(\)', m_end), (M + r'c?begin\(\)', m_begin), (M + r'find\(', m_find), (M + r'count\(', m_count), (M + r'empty\(\)', m_empty), (M + r'operator\[\]\(', m_index),
    (M + r'insert\(std::_Rb_tree_(const_)?iterator, std::_Rb_tree_(const_)?iterator\)', m_insert_range), (M + r'insert\((std::pair|.*&&)', m_insert),
    (r'.*std::map::insert\(std::pair', m_insert), (M + r'erase\((?!std::_Rb_tree)', m_erase_key), (M + r'clear\(\)', m_clear),
    (r'.*std::_Rb_tree_node::_M_valptr\(\)', m_valptr), (r'(bool )?std::operator(==|!=)\(std::_Rb_tree_', it_cmp),
    (S + r'shared_ptr\(\)', sp_ctor0), (S + r'shared_ptr\(boost::shared_ptr ?&&', sp_move), (S + r'operator=\(boost::shared_ptr ?&&', sp_massign), (S + r'shared_ptr\(boost::shared_ptr const&', sp_copy), (S + r'operator=\(boost::shared_ptr const&', sp_assign),
    (r'.*boost::shared_ptr& boost::shared_ptr::operator=\(', sp_assign),
    (S + r'shared_ptr\((?!boost::shared_ptr)', sp_ctor_raw), (S + r'~shared_ptr\(\)', sp_dtor), (S + r'swap\(', sp_swap), (S + r'reset\(\)', sp_reset0), (S + r'reset\(.', sp_reset),
    (S + r'operator(\*|->)\(\) const', sp_deref), (S + r'get\(\) const', sp_getp), (S + r'operator bool\(\) const', sp_bool), (S + r'operator!\(\) const', sp_not), (S + r'unique\(\) const', sp_unique),
    (r'boost::variant::variant\(\)', v_ctor0), (r'boost::variant::~variant\(\)', m_dtor), (r'boost::variant::(variant|operator=)\(boost::variant ?(const&|&&|&)\)', v_copy), (r'boost::variant::swap\(', v_swap),
    (r'boost::variant::variant\((?!boost::variant)', v_conv), (r'.*boost::variant::operator=\((?!boost::variant )', v_convassign),
    (r'.*boost::get\(boost::variant( const)?&\)', v_get), (r'std::vector::swap\(', vec_swap_ghost), (r'std::vector::(vector|operator=)\(std::vector const&\)', vec_copy_ghost),
]]


def contracts(ctx):
    """handlers for every std::map / shared_ptr / variant function of the program"""
    if getattr(ctx, '_gmap', None) is None:
        out = {}
        for n, d in ctx.lib.dm.items():
            if 'std::map<' not in d and 'boost::' not in d and '_Rb_tree' not in d and 'std::vector<' not in d:
                continue
            if not build.is_library(n):
                continue
            s = build.strip_templates(d)
            for rx, h in RULES:
                if rx.match(s):
                    out[n] = h
                    break
        ctx._gmap = out
    return dict(ctx._gmap)


# ------------------------------------------------------------------ comparison of map values
def map_keys(m, acc=None):
    acc = acc if acc is not None else []
    if m[0] in ('put', 'del'):
        if m[2] not in acc:
            acc.append(m[2])
        map_keys(m[1], acc)
    elif m[0] == 'merge':
        map_keys(m[1], acc)
        map_keys(m[2], acc)
    return acc


def value_eq(P, name, pc, a, b):
    for pa, x in leaves(list(pc), a):
        if not feasible(pa):
            continue
        for pb, y in leaves(pa, b):
            if not feasible(pb):
                continue
            if x == y:
                P.fact(name, True)
            elif x and y and x[0] == y[0] == 'vt' and x[1] == y[1] == 'double':
                P.eq(name, pb, x[2], y[2])
            else:
                P.fact(name, False, '%r / %r' % (x, y))


def map_eq(P, name, pc, a, b, key=('sym', '$anykey')):
    """same entries: at every key mentioned, and at an arbitrary other key"""
    ks = map_keys(a)
    for k in map_keys(b):
        if k not in ks:
            ks.append(k)
    for k in ks + [key]:
        q = list(pc)
        if k is key or k == key:
            q += [bnot(keyeq(key, x)) for x in ks]
            if key[0] == 'sym' and ks and isinstance(ks[0], tuple) and ks[0][0] == 'key2':
                pass
        pa, va = lookup(a, k)
        pb, vb = lookup(b, k)
        w = '%s [key %s]' % (name, k[1] if isinstance(k, tuple) and len(k) > 1 and k is not key else 'any other')
        P.holds(w + ' present =>', q + [pa], pb)
        P.holds(w + ' present <=', q + [pb], pa)
        q2 = q + [pa, pb]
        if feasible(q2):
            value_eq(P, w + ' value', q2, va, vb)
