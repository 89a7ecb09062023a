"""Assumed contracts of std::vector<std::string> and of std::copy / std::reverse on it, in terms of sequence values.

value      tuple of segments: ('s', name, reversed) an arbitrary sequence, ('one', text), ('rep', value, count)
in memory  ghost ('opaque', ('seq', value)) or, while being filled, ('opaque', ('part', total length, value written so far))"""
from gmap import *
import gmap as G


def seqlen(v):
    r = I0
    for s in v:
        if s[0] == 's':
            n = ivar('len.' + s[1])
        elif s[0] == 'one':
            n = I1
        else:
            n = imul(seqlen(s[1]), s[2])
        r = iadd(r, n)
    return r


def seqrev(v):
    out = []
    for s in reversed(v):
        out.append(('s', s[1], not s[2]) if s[0] == 's' else s if s[0] == 'one' else ('rep', seqrev(s[1]), s[2]))
    return tuple(out)


def rep(v, n):
    c = icst(n)
    if c == 0 or not v:
        return ()
    if c == 1:
        return tuple(v)
    return (('rep', tuple(v), n),)


def norm(v):
    """joins x^n ++ x = x^(n+1) and x ++ x^n = x^(n+1)"""
    out = []
    for s in v:
        out.append(s)
        while True:
            hit = False
            for i in range(len(out)):
                if out[i][0] != 'rep':
                    continue
                b = list(out[i][1])
                k = len(b)
                if out[i + 1:] == b:
                    out[i:] = [('rep', tuple(b), iadd(out[i][2], I1))]
                    hit = True
                    break
                if i == len(out) - 1 and k and out[i - k:i] == b and i >= k:
                    out[i - k:] = [('rep', tuple(b), iadd(out[i][2], I1))]
                    hit = True
                    break
            if not hit:
                break
    return tuple(out)


def sget(st, p):
    g = gget(st, p)
    if g is None:
        reg = st.mem[p.r]
        if reg.base == 'sym' and not reg.stride:
            return ('seq', (('s', '%s+%s' % (reg.name, icst(p.o)), False),))
        raise Unknown("list of texts not initialised")
    if g[0] != 'opaque' or not isinstance(g[1], tuple):
        raise Unknown("list of texts expected, %r" % (g,))
    v = g[1]
    if v[0] == 'novec':
        return ('seq', ())
    if v[0] not in ('seq', 'part'):
        return ('seq', (('s', repr(v), False),))
    return v


def done(st, v):
    """value of a list that has been filled completely"""
    if v[0] == 'part':
        if not entails(st.pc, ieq(v[1], seqlen(v[2]))):
            raise Unknown("list of texts filled only in part: %s of %s" % (seqlen(v[2]), v[1]))
        return v[2]
    return v[1]


def sval(st, p):
    return norm(done(st, sget(st, p)))


def sset(st, p, v):
    gset(st, p, ('opaque', ('seq', tuple(v))))


def total(v):
    return v[1] if v[0] == 'part' else seqlen(v[1])


def iter_reg(ex, st, p):
    k = ('siter', p.r, icst(p.o))
    r = st.ghost.get(k)
    if r is None:
        reg = ex.alloc(st, 'iterator into %s' % st.mem[p.r].name)
        reg.tag = ('siter', p)
        st.ghost[k] = r = reg.id
    return r


def s_ctor0(ex, st, a, n):
    sset(st, a[0], ())


def s_ctorn(ex, st, a, n):
    gset(st, a[0], ('opaque', ('part', a[1], ())))


def s_copy(ex, st, a, n):
    gset(st, a[0], ('opaque', sget(st, a[1])))
    if '&&' in tail_args(ex.lib.dem(n)):
        sset(st, a[1], ())
    return a[0]


def s_dtor(ex, st, a, n):
    return None


def s_size(ex, st, a, n):
    r = total(sget(st, a[0]))
    st.assume(ile(I0, r))
    return r


def s_empty(ex, st, a, n):
    return ieq(total(sget(st, a[0])), I0)


def s_begin(ex, st, a, n):
    return Ptr(iter_reg(ex, st, a[0]), I0)


def s_end(ex, st, a, n):
    return Ptr(iter_reg(ex, st, a[0]), iscale(total(sget(st, a[0])), 32))


def s_rbegin(ex, st, a, n):
    gset(st, a[0], ('rit', a[1], 'b'))


def s_rend(ex, st, a, n):
    gset(st, a[0], ('rit', a[1], 'e'))


def s_swap(ex, st, a, n):
    x, y = sget(st, a[0]), sget(st, a[1])
    gset(st, a[0], ('opaque', y))
    gset(st, a[1], ('opaque', x))


def s_push(ex, st, a, n):
    sset(st, a[0], sval(st, a[0]) + (('one', strval(st, a[1])),))


def s_resize(ex, st, a, n):
    v = sval(st, a[0])
    if entails(st.pc, ile(seqlen(v), a[1])):
        gset(st, a[0], ('opaque', ('part', a[1], v)))
    else:
        raise Unknown("list of texts shortened")


def s_nop(ex, st, a, n):
    return None


def s_clear(ex, st, a, n):
    sset(st, a[0], ())


def s_index(ex, st, a, n):
    """operator[]: reference to an element; a text assigned to the only element of a list of length one defines the list"""
    return Ptr(iter_reg(ex, st, a[0]), iscale(a[1], 32))


def source(ex, st, b, e):
    """value of the range [b, e)"""
    g = gget(st, b) if isinstance(b.r, int) else None
    if g is not None and g[0] == 'rit':
        h = gget(st, e)
        if h is None or h[0] != 'rit' or h[1] != g[1] or (g[2], h[2]) != ('b', 'e'):
            raise Unknown("range of a list")
        return seqrev(sval(st, g[1]))
    t, u = st.mem[b.r].tag, st.mem[e.r].tag
    if not t or t != u or t[0] != 'siter':
        raise Unknown("range of a list")
    v = sval(st, t[1])
    if b.o is not I0 or not entails(st.pc, ieq(e.o, iscale(seqlen(v), 32))):
        raise Unknown("part of a list")
    return v


def contracts(ctx, P):
    def s_cpy(ex, st, a, n):
        v = source(ex, st, a[0], a[1])
        o = a[2]
        t = st.mem[o.r].tag
        if not t or t[0] != 'siter':
            raise Unknown("target of std::copy")
        w = sget(st, t[1])
        n_ = seqlen(v)
        end = iadd(o.o, iscale(n_, 32))
        if not st.ghost.get('nobounds'):
            P.holds('std::copy stays within the target list', st.pc, band(ile(I0, o.o), ile(end, iscale(total(w), 32))))
        have = w[2] if w[0] == 'part' else w[1]
        if entails(st.pc, ieq(o.o, iscale(seqlen(have), 32))) or st.ghost.get('nobounds'):
            gset(st, t[1], ('opaque', ('part', total(w), norm(have + tuple(v)))))
        elif o.o is I0 and entails(st.pc, ieq(n_, total(w))):
            sset(st, t[1], v)
        else:
            raise Unknown("std::copy over part of a list")
        return Ptr(o.r, end)

    def s_rev(ex, st, a, n):
        v = source(ex, st, a[0], a[1])
        sset(st, st.mem[a[0].r].tag[1], seqrev(v))

    def str_assign(ex, st, a, n):
        """assignment to an element of a list under construction"""
        reg = st.mem[a[0].r]
        if not (reg.tag and reg.tag[0] == 'siter'):
            return LIB.str_assign(ex, st, a, n)
        w = sget(st, reg.tag[1])
        have = w[2] if w[0] == 'part' else None
        if have is None or a[0].o != iscale(seqlen(have), 32):
            raise Unknown("assignment to an element of a list")
        gset(st, reg.tag[1], ('opaque', ('part', w[1], have + (('one', strval(st, a[1])),))))
        return a[0]
    V = r'std::vector::'
    rules = [(re.compile(r), h) for r, h in [
        (V + r'vector\(\)$', s_ctor0), (V + r'vector\(unsigned long, std::allocator const&\)', s_ctorn), (V + r'(vector|operator=)\(std::vector ?(const&|&&)\)', s_copy),
        (V + r'~vector\(\)', s_dtor), (V + r'size\(\) const', s_size), (V + r'empty\(\) const', s_empty), (V + r'c?begin\(\)', s_begin), (V + r'c?end\(\)', s_end),
        (V + r'c?rbegin\(\)', s_rbegin), (V + r'c?rend\(\)', s_rend), (V + r'swap\(', s_swap), (V + r'push_back\(', s_push), (V + r'resize\(unsigned long\)', s_resize), (V + r'reserve\(', s_nop),
        (V + r'clear\(\)', s_clear), (V + r'operator\[\]\(', s_index),
        (r'.*std::copy\(', s_cpy), (r'.*std::reverse\(', s_rev)]]
    out = {}
    for n, d in ctx.lib.dm.items():
        if re.match(r'_ZNK?St6vectorINSt7__cxx1112basic_string', n) or re.match(r'_ZSt(4copy|7reverse)I.*basic_string', n):
            s = build.strip_templates(d)
            for rx, h in rules:
                if rx.match(s):
                    out[n] = h
                    break
        elif re.match(r'_ZNSt7__cxx1112basic_string.*aSERKS4_$', n) or build.strip_templates(d).startswith('std::__cxx11::basic_string::operator=(std::__cxx11::basic_string const&)'):
            out[n] = str_assign
    return out
