"""Bounded run-time contract checks of the lattice language: random programs, evaluated independently on their syntax tree."""
import ctypes as C, math, os, tempfile, shutil
import native as N
from native import Fail, q

FUN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'arcsin': math.asin, 'arccos': math.acos,
       'arctan': math.atan, 'deg2rad': lambda x: x * math.pi / 180.0, 'rad2deg': lambda x: x * 180.0 / math.pi}


class Bad(Exception):
    """the program is an error; args[0]: line of the offending token if the contract names it"""


# ------------------------------------------------------------------ values: float | str | ('v', [float]) | ('l', [names])
class V(float):
    """a number with a bound of the rounding error any order of evaluation may produce"""
    def __new__(cls, x, err=0.0):
        o = float.__new__(cls, x)
        o.err = err
        return o


def er(x):
    return getattr(x, 'err', 0.0)


EPS = 8 * 2.0 ** -52


def fun(o, a):
    try:
        r = float(FUN[o](float(a)))
    except (ValueError, OverflowError):
        if a == a and o in ('asin', 'arcsin', 'acos', 'arccos') and abs(abs(a) - 1) <= 10 * er(a):
            raise Bad           # in or out of the domain, depending on rounding
        return math.nan
    e = 0.0
    for x in (a - er(a), a + er(a)):
        try:
            e = max(e, abs(FUN[o](x) - r))
        except (ValueError, OverflowError):
            raise Bad
    if o in ('sin', 'cos', 'tan') and er(a) > 0.01 or e > 0.01 * abs(r):
        raise Bad               # nothing left to compare
    return V(r, 2 * e + EPS * abs(r))


def op(o, a, b=None):
    num = lambda x: isinstance(x, float)
    line = lambda x: isinstance(x, tuple) and x[0] == 'l'
    if b is None:
        if o == '-':
            if num(a):
                return V(-a, er(a))
            if line(a):
                return ('l', a[1][::-1])
            raise Bad
        if o in FUN and num(a):
            return fun(o, a)
        raise Bad
    if num(a) and num(b):
        x, y = float(a), float(b)
        if o == '/':
            if y == 0 or abs(y) <= 10 * er(b) or not math.isfinite(x / y):
                raise Bad
            return V(x / y, (er(a) + abs(x / y) * er(b)) / abs(y) * 1.2 + EPS * abs(x / y))
        if o == '*':
            return V(x * y, (abs(x) * er(b) + abs(y) * er(a)) * 1.2 + EPS * abs(x * y))
        r = x + y if o == '+' else x - y
        return V(r, er(a) + er(b) + EPS * abs(r))
    if o == '*' and num(a) and line(b):
        a, b = b, a
    if o == '*' and line(a) and num(b):
        if not (0 <= b <= 4294967295.0) or er(b) and abs(b - round(b)) < 10 * er(b):
            raise Bad
        return ('l', a[1] * int(b))
    raise Bad


# ------------------------------------------------------------------ program text
PREC = {'+': 1, '-': 1, '*': 2, '/': 2}


class Prog:
    """statements with their meaning, built together"""

    def __init__(self, g):
        self.g = g
        self.vars, self.elems, self.lines = {}, {}, {}
        self.order = []
        self.text = ''
        self.pre = {}
        self.prints = []

    def ws(self):
        r = self.g.random()
        return '' if r < 0.6 else ' ' if r < 0.85 else '\t ' if r < 0.93 else ' # c"om;ment\n' if r < 0.96 else '\n'

    def num(self):
        g = self.g
        r = g.random()
        t = str(g.randrange(0, 12)) if r < 0.4 else '%d.%d' % (g.randrange(0, 50), g.randrange(0, 1000)) if r < 0.7 else \
            '%d.' % g.randrange(0, 9) if r < 0.75 else '%d.%de%s%d' % (g.randrange(1, 10), g.randrange(10), g.choice(('', '+', '-')), g.randrange(0, 5)) if r < 0.95 else '%dE%d' % (g.randrange(1, 9), g.randrange(3))
        return t, float(t)

    def expr(self, kind, depth=0):
        """-> (text, precedence, value) of an expression of the wanted kind (number, vector, string, line)"""
        g = self.g
        w = self.ws
        names = [n for n in self.scope() if self.kind(self.scope()[n]) == kind]
        if kind == 's':
            if names and g.random() < 0.4:
                n = g.choice(names)
                return n, 9, self.scope()[n]
            s = ''.join(g.choice("ab c#;=[](),1.5-'\\") for _ in range(g.randrange(0, 6) if g.random() < 0.9 else g.randrange(6, 400)))
            return '"%s"' % s, 9, s
        if kind == 'v':
            if names and g.random() < 0.3:
                n = g.choice(names)
                return n, 9, self.scope()[n]
            xs = [self.expr('n', depth + 1) for _ in range(g.choice((0, 1, 2, 3, 7)))]
            t = (',' + w()).join(x[0] for x in xs)
            if xs and g.random() < 0.15:
                t += ','
            return '[' + w() + t + w() + ']', 9, ('v', [x[2] for x in xs])
        if kind == 'l':
            if depth > 3 or g.random() < 0.55:
                n = g.choice(names)
                return n, 9, self.scope()[n]
            if g.random() < 0.4:
                return self.un('-', self.expr('l', depth + 1))
            f = self.expr('n', 3) if g.random() < 0.15 else (str(g.randrange(0, 4)), 9, None)
            f = (f[0], f[1], float(f[0]) if f[2] is None else f[2])
            if g.random() < 0.2:
                f = ('2.9', 9, 2.9)
            if len(self.flat('l', f[2])) > 60 or not (0 <= f[2] < 8):
                f = ('2', 9, 2.0)
            e = self.expr('l', depth + 1)
            if len(e[2][1]) > 60:
                return e
            return self.bi('*', *((f, e) if g.random() < 0.6 else (e, f)))
        # number
        r = g.random()
        if depth > 4 or r < 0.3:
            if names and g.random() < 0.5:
                n = g.choice(names)
                return n, 9, self.scope()[n]
            if 'pi' not in self.scope() and g.random() < 0.1:
                return 'pi', 9, math.pi
            t, v = self.num()
            return t, 9, v
        if r < 0.42:
            return self.un('-', self.expr('n', depth + 1))
        if r < 0.55:
            f = g.choice(sorted(FUN))
            e = self.expr('n', depth + 1)
            return f + w() + '(' + w() + e[0] + w() + ')', 9, op(f, e[2])
        if r < 0.6:
            e = self.expr('n', depth + 1)
            return '(' + w() + e[0] + w() + ')', 9, e[2]
        return self.bi(g.choice('+-*/'), self.expr('n', depth + 1), self.expr('n', depth + 1))

    def flat(self, k, v):
        return v[1] if isinstance(v, tuple) else []

    def un(self, o, e):
        t = e[0] if e[1] >= 3 else '(' + e[0] + ')'
        return '-' + self.ws() + t, 3, op(o, e[2])

    def bi(self, o, a, b):
        p = PREC[o]
        w = self.ws
        ta = a[0] if a[1] >= p else '(' + a[0] + ')'
        tb = b[0] if b[1] > p else '(' + b[0] + ')'
        return ta + w() + o + w() + tb, p, op(o, a[2], b[2])

    @staticmethod
    def kind(v):
        return 'n' if isinstance(v, float) else 's' if isinstance(v, str) else v[0]

    def scope(self):
        """names visible in an expression: variables hide elements, elements hide lines"""
        s = {n: ('l', list(v)) for n, v in self.lines.items()}
        s.update({n: ('l', [n]) for n in self.elems})
        s.update(self.vars)
        return s

    NAMES = ['a', 'b2', 'x_y', 'Q1', 'q1', 'd:1', 'name', 'L', 'K', 'pi', 'elements', 'type', 'U', 'line1', 'sim_type', 'z9', 'w:w', 'LINE']

    def put(self, t):
        self.text += t

    def fresh(self, used):
        c = [n for n in self.NAMES + ['n%d' % k for k in range(40)] if n not in used]
        return self.g.choice(c[:14])

    # -- statements
    def assign(self):
        g = self.g
        n = self.fresh(self.vars)
        k = g.choice('nnnvs')
        t, _, v = self.expr(k)
        w = self.ws
        self.put(n + w() + '=' + w() + t + w() + ';')
        self.vars[n] = v

    def element(self):
        g = self.g
        w = self.ws
        n = self.fresh(self.elems)
        ty = g.choice(('drift', 'quad', 'a:b', 'X9'))
        props = {}
        t = n + ' ' + w() + ': ' + w() + ty
        for _ in range(g.choice((0, 1, 2, 4))):
            k = g.choice(('L', 'K', 'name', 'type', 'aper', 'v1', 's1'))
            e = self.expr(g.choice('nnnvs'))
            t += w() + ',' + w() + k + w() + '=' + w() + e[0]
            props.setdefault(k, e[2])       # the first of equal names counts
        self.put(t + w() + ';')
        self.elems[n] = (ty, props)

    def line(self):
        g = self.g
        w = self.ws
        n = self.fresh(self.lines)
        k = g.choice((0, 1, 1, 2, 3, 5))
        has = [x for x in self.scope() if self.kind(self.scope()[x]) == 'l']
        es = [self.expr('l') for _ in range(k)] if has else []
        names = sum((e[2][1] for e in es), [])
        if len(names) > 300:
            es, names = es[:0], []
        t = (w() + ',' + w()).join(e[0] for e in es)
        if es and g.random() < 0.1:
            t += ','
        self.put(n + ' : ' + g.choice(('LINE', 'LINE', 'line', 'Line')) + w() + '=' + w() + '(' + w() + t + w() + ')' + w() + ';')
        self.lines[n] = names
        self.order.append(n)

    def other(self):
        g = self.g
        if g.random() < 0.5:
            self.put('END;')
        else:
            e = self.expr(g.choice('nvs'))
            self.put('print' + self.ws() + '(' + e[0] + ')' + self.ws() + ';')

    def sep(self):
        self.put(self.g.choice(('\n', '\n', ' ', '', '\n# comment : x = 1;\n', '\t')))

    def use(self, n):
        self.put('USE : %s;' % n)
        self.elems['USE'] = (n, {})


def meaning(p, lattice=True):
    """-> (top level, [(element scope)])"""
    top = dict(p.vars)
    els = []
    if lattice:
        if not p.order:
            raise Bad
        u = p.elems.get('USE')
        n = u[0] if u else p.order[-1]
        if n not in p.lines or not p.lines[n]:
            raise Bad
        for e in p.lines[n]:
            ty, props = p.elems[e]
            d = dict(props)
            d['type'], d['name'] = ty, e
            els.append(d)
        top['name'] = n
    return top, els


def cmpval(c, k, v, what, inp):
    kind = {'n': 1, 'v': 2, 's': 3}[Prog.kind(v)]
    h = c.has(k)
    if h != kind:
        raise Fail('%s: %s has kind %d, contract %d (%r)' % (what, k, h, kind, v), inp)
    got = c.d(k) if kind == 1 else c.s(k) if kind == 3 else c.v(k)
    w = v[1] if kind == 2 else v
    ok = got == w if kind == 3 else close(got, w) if kind == 1 else len(got) == len(w) and all(close(a, b) for a, b in zip(got, w))
    if not ok:
        raise Fail('%s: %s is %r, contract %r' % (what, k, got, w), inp)


def close(a, b):
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-13 * (abs(a) + abs(b)) + 4 * er(b)


def compare(c, top, els, pre, what, inp, lattice=True):
    want = dict(pre)
    want.update(top)
    keys = set(c.keys())
    w = set(want) | ({'elements'} if lattice else set())
    if keys != w:
        raise Fail('%s: variables %r, contract %r' % (what, sorted(keys ^ w), sorted(w)), inp)
    for k, v in want.items():
        if not (lattice and k == 'elements'):
            cmpval(c, k, v, what, inp)
    if not lattice:
        return
    got = c.cv('elements')
    if len(got) != len(els):
        raise Fail('%s: %d elements, contract %d' % (what, len(got), len(els)), inp)
    glob = dict(want)
    for i, (e, d) in enumerate(zip(got, els)):
        if set(e.keys()) != set(d):
            raise Fail('%s: element %d has properties %r, contract %r' % (what, i, sorted(e.keys()), sorted(d)), inp)
        for k, v in d.items():
            cmpval(e, k, v, '%s: element %d' % (what, i), inp)
        if i < 3 or i == len(got) - 1:
            for k, v in glob.items():
                if k not in d and k not in ('name', 'elements'):
                    cmpval(e, k, v, '%s: element %d sees global' % (what, i), inp)


def parse(L, text, pre=None, path=None, how=0):
    c = N.Conf.of(L, {k: (v[1] if isinstance(v, tuple) else v) for k, v in (pre or {}).items()})
    b = q(text)
    p = L.l.fl_conf_parse_conf(b, len(b), c.p, q(path) if path else None, how)
    return N.Conf(L, p) if p else None


def program(g, errors=False):
    p = Prog(g)
    for _ in range(g.randrange(0, 3)):
        n = g.choice(('a', 'pv', 'L', 'z9'))
        if n not in p.pre:
            p.pre[n] = g.choice((1.5, 'text', ('v', [1.0, 2.0]), -3.0))
    p.vars.update(p.pre)
    n = g.choice((2, 5, 9, 16))
    for _ in range(n):
        r = g.random()
        try:
            t0 = p.text
            if r < 0.4:
                p.assign()
            elif r < 0.65:
                p.element()
            elif r < 0.93:
                p.line()
            else:
                p.other()
        except Bad:         # e.g. division by zero: not a valid statement
            p.text = t0
        p.sep()
    return p


def c_parse(L, g, it):
    """well-formed programs"""
    p = program(g)
    while not p.elems:
        t0 = p.text
        try:
            p.element()
        except Bad:
            p.text = t0
    if not p.order or not p.lines[p.order[-1]]:
        e = g.choice(sorted(p.elems))
        if e in p.vars:
            raise N.Skip
        n = p.fresh(p.lines)
        p.put('\n%s: LINE = (%s);\n' % (n, e))
        p.lines[n] = [e]
        p.order.append(n)
    if g.random() < 0.3:
        ok = [n for n in p.lines if p.lines[n]]
        if ok:
            p.put('\n')
            p.use(g.choice(ok))
    if g.random() < 0.2:
        p.sep()
        try:
            p.assign()
        except Bad:
            raise N.Skip
    inp = {'text': p.text, 'setVar': p.pre}
    N.note(inp)
    how = g.choice((0, 0, 1, 2, 3))
    lat = how != 2
    top, els = meaning(p, lat)
    d = None
    try:
        text = p.text
        if how >= 2:
            d = tempfile.mkdtemp()
            f = d + '/t.lat'
            open(f, 'w').write(p.text)
            text = f
        c = parse(L, text, p.pre, None, how)
        if c is None:
            raise Fail('a well-formed lattice is rejected: ' + L.err(), inp)
        compare(c, top, els, {}, 'parse', inp, lat)
    finally:
        if d:
            shutil.rmtree(d)
    if not lat:
        return
    # written out and read again; strings cannot contain quotes, numbers are written with 17 digits
    vals = [v for x in [top] + els for v in x.values()]
    if any(isinstance(v, float) and not math.isfinite(v) or isinstance(v, tuple) and any(not math.isfinite(y) for y in v[1]) for v in vals):
        return
    bad = ('d:1', 'w:w', 'USE')
    if 'elements' in top or any(e['type'] in bad for e in els) or any(e['name'] in top for e in els):
        return          # a variable hides the element of its name
    t = L.l.fl_conf_glps(c.p)
    if t is None:
        raise Fail('GLPSPrint fails: ' + L.err(), inp)
    inp['printed'] = t.decode('latin1')
    c2 = parse(L, inp['printed'])
    if c2 is None:
        raise Fail('printed lattice is rejected: ' + L.err(), inp)
    compare(c2, top, els, {}, 'printed and parsed again', inp)


def c_errors(L, g, it):
    """ill-formed programs raise an error that names the line"""
    p = program(g)
    p.put('\n')
    n0 = p.text.count('\n') + 1
    k = it % 24
    line = None
    v, e, l = (next(iter(x), None) for x in (p.vars, p.elems, p.lines))
    s = None
    if k == 0:
        s, line = 'new1 = undefined_name;', n0
    elif k == 1:
        s, line = 'new1 = 1 + undefined_name;', n0
    elif k == 2 and v:
        s, line = '%s = 1;' % v, n0
    elif k == 3 and e:
        s, line = '%s : drift;' % e, n0
    elif k == 4 and l:
        s, line = '%s : LINE = ();' % l, n0
    elif k == 5:
        s = 'new1 = 1/0;'
    elif k == 6:
        s, line = 'new1 = 1 +;', n0
    elif k == 7:
        s, line = 'new1 = 1 ! 2;', n0
    elif k == 8:
        s, line = 'new1 = "abc', n0
    elif k == 9:
        s, line = 'new1 = sin("x");', n0
    elif k == 10:
        s, line = 'new1 = "a" + 1;', n0
    elif k == 11:
        s, line = 'e1x : drift; new1 = e1x;', n0
    elif k == 12:
        s, line = 'l1x : LINES = ();', n0
    elif k == 13:
        s, line = 'STOP;', n0
    elif k == 14:
        s, line = 'show(1);', n0
    elif k == 15:
        s, line = 'new1 = [1, "a"];', n0
    elif k == 16:
        s, line = 'e1x : drift; l1x : LINE = (e1x, 3);', n0
    elif k == 17:
        s = 'e1x : drift; l1x : LINE = (-2*e1x);'
    elif k == 18:
        s, line = 'new1 = 1e999;', n0
    elif k == 19:
        s, line = 'e1x : drift, L = 1, ;', n0
    elif k == 20:
        s, line = 'new1 = foo(1);', n0
    elif k == 21:
        s, line = 'e1x : drift; l1x : LINE = (e1x + e1x);', n0
    elif k == 22:
        s, line = 'new1 = 1', None
    elif k == 23:
        s = 'e1x : drift; l1x : LINE = (asin(2)*e1x);'
    if s is None:
        raise N.Skip
    p.put(s + '\n')
    if k not in (8, 22) and g.random() < 0.5:
        p.put('z1 : drift; zz : LINE = (z1);\n')
    inp = {'text': p.text, 'setVar': p.pre}
    N.note(inp)
    how = g.choice((0, 1))
    if parse(L, p.text, p.pre, None, how) is not None:
        raise Fail('accepted although ill-formed', inp)
    m = L.err()
    if line and 'On line %d:' % line not in m:
        raise Fail('error message %r does not name line %d' % (m, line), inp)
    # a parser error has no lasting effect
    c = parse(L, 'd:drift : drift, L=1; l : LINE = (2*d:drift);')
    if c is None or len(c.cv('elements')) != 2:
        raise Fail('a correct lattice is rejected after an error', inp)


def c_nolat(L, g, it):
    """selection of the beamline, nested files, paths"""
    d = tempfile.mkdtemp()
    try:
        k = it % 6
        inp = {'case': k}
        if k == 0:
            inp['text'] = 'a = 1;'
            if parse(L, inp['text']) is not None:
                raise Fail('a lattice without beamline is accepted', inp)
        elif k == 1:
            inp['text'] = 'd : drift; l : LINE = (d); USE : m;'
            if parse(L, inp['text']) is not None:
                raise Fail('USE of an undefined beamline is accepted', inp)
        elif k == 2:
            inp['text'] = 'd : drift; l : LINE = (d); m : LINE = ();' + g.choice(('', 'USE : m;'))
            if parse(L, inp['text']) is not None:
                raise Fail('an empty beamline is accepted', inp)
        elif k == 3:
            sub = 'x = %d; d : drift, L = x; l : LINE = (2*d);' % g.randrange(9)
            os.mkdir(d + '/sub')
            open(d + '/sub/i.lat', 'w').write(sub)
            inp['text'] = 'f = parse("sub/i.lat"); d : drift, cav = parse("sub/i.lat"), p = file("sub/i.lat"), q = dir("sub"); l : LINE = (d);'
            open(d + '/m.lat', 'w').write(inp['text'])
            inp['sub'] = sub
            os.makedirs(d + '/cwd/sub')
            open(d + '/cwd/sub/i.lat', 'w').write('x = 77; o : drift, L = x; l : LINE = (3*o);')
            N.note(inp)
            back = os.getcwd()
            os.chdir(d + '/cwd')            # files of the same names in the working directory do not matter
            try:
                c = parse(L, inp['text'], None, d, 0) if g.random() < 0.5 else parse(L, d + '/m.lat', None, None, 3)
            finally:
                os.chdir(back)
            if c is None:
                raise Fail('rejected: ' + L.err(), inp)
            e = c.cv('elements')[0]
            for x, n in ((c, 'f'), (e, 'cav')):
                y = x.cv(n)
                if len(y) != 1 or len(y[0].cv('elements')) != 2 or y[0].d('x') != float(sub.split(';')[0][4:]):
                    raise Fail('nested lattice differs', inp)
            r = os.path.realpath(d)
            if e.s('p') != r + '/sub/i.lat' or e.s('q') != r + '/sub':
                raise Fail('paths are not relative to the lattice: %r' % e.s('p'), inp)
        elif k == 4:
            inp['text'] = 'a = %s("nothing.here"); d : drift; l : LINE = (d);' % g.choice(('file', 'dir', 'parse'))
            N.note(inp)
            if parse(L, inp['text'], None, d, 0) is not None:
                raise Fail('a missing file is accepted', inp)
        elif k == 5:
            inp['file'] = d + '/absent.lat'
            if parse(L, inp['file'], None, None, 3) is not None:
                raise Fail('a missing lattice file is accepted', inp)
    finally:
        shutil.rmtree(d)


CHECKS = {'parse': c_parse, 'errors': c_errors, 'select': c_nolat}
