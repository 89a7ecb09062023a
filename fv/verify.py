"""Obligation bookkeeping, equality prover with hypotheses, symbolic set-ups shared by the property specs."""
import os, sys, time, traceback, multiprocessing, signal
from model import *
import model as MODEL
import terms
import contracts as CT
from contracts import at
import mathx as MX
from mathx import *


# ------------------------------------------------------------------ a verification task
class Task:
    """one function (or lemma) under contract; run(rec) adds obligations"""

    def __init__(self, name, run, functions=(), kind='proof', timeout=300, cost=1):
        self.name, self.run, self.functions, self.kind, self.timeout, self.cost = name, run, functions, kind, timeout, cost


class _Timeout(Exception):
    pass


def _alarm(*a):
    raise _Timeout()


def run_task(t):
    rec = Recorder()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(t.timeout)
    try:
        t.run(rec)
        if not rec.obls:
            rec.add(t.name, 'non-vacuity', 'unknown', 'no obligation was generated')
    except Unknown as e:
        rec.add(t.name, 'symbolic execution', 'unknown', 'verifier limit: %s [%s]' % (e, getattr(e, 'where', '')))
    except _Timeout:
        rec.add(t.name, 'symbolic execution', 'unknown', 'time limit of %d s' % t.timeout)
    except RecursionError:
        rec.add(t.name, 'symbolic execution', 'unknown', 'recursion limit')
    except Exception as e:
        rec.add(t.name, 'symbolic execution', 'unknown', 'verifier error: %s' % ''.join(traceback.format_exc(limit=-3))[-600:])
    finally:
        signal.alarm(0)
        terms.nfcut(0)
    dt = time.time() - t0
    return Result(t.name, [(o.fn, o.name, o.status, o.detail, o.cex) for o in rec.obls], sorted(set(rec.functions)), list(rec.notes), dt, {'solver_s': logic.stats['z3_time'], 'queries': logic.stats['z3_queries']})


class Result:
    def __init__(self, name, obls, functions, notes, dt, stats):
        self.name, self.obls, self.functions, self.notes, self.dt, self.stats = name, obls, functions, notes, dt, stats


_TASKS = None


def _worker(i):
    sys.setrecursionlimit(20000)
    logic.stats['z3_time'] = 0.0
    logic.stats['z3_queries'] = 0
    return run_task(_TASKS[i])


def run_tasks(tasks, procs=8, budget=3600):
    """every task in a forked worker; what is not finished within the budget counts as not decided"""
    global _TASKS
    _TASKS = tasks
    if procs == 1 or os.environ.get('FV_SERIAL'):
        return [_worker(i) for i in range(len(tasks))]
    c = multiprocessing.get_context('fork')
    end = time.time() + budget
    out = []
    if not tasks:
        return out
    p = c.Pool(min(procs, len(tasks)), maxtasksperchild=4)
    try:
        rs = [p.apply_async(_worker, (i,)) for i in range(len(tasks))]
        for t, r in zip(tasks, rs):
            try:
                out.append(r.get(max(0.1, end - time.time())))
            except multiprocessing.TimeoutError:
                out.append(Result(t.name, [(t.name, 'symbolic execution', 'unknown', 'overall time limit', None)], [], [], 0.0, {}))
            except Exception as e:
                out.append(Result(t.name, [(t.name, 'symbolic execution', 'unknown', 'verifier error: %r' % e, None)], [], [], 0.0, {}))
    finally:
        p.terminate()
    return out


# ------------------------------------------------------------------ equalities under hypotheses
def goal_indices(ts):
    out = set()
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'relem':
            i = t.args[1]
            if not any(v.op == 'iv' and str(v.args[0]).startswith('$b') for v in fvars(i)):
                out.add(i)
        for a in targs(t):
            go(a)
    for t in ts:
        if isinstance(t, T):
            go(t)
    return out


def instances(pc, idx):
    """hypotheses with the `all` facts instantiated at the indices of the goal"""
    out = []
    for c in pc:
        if c.op == 'all':
            lo, hi, body = c.args
            b = ivar('$b%d' % sumdepth(c))
            for i in idx:
                if entails(pc, band(ile(lo, i), ilt(i, hi))):
                    x = subst(body, {b: i})
                    out.extend(x.args if x.op == 'and' else [x])
    return out


def eq_map(hyps):
    """union-find over rv/relem/rc equalities -> substitution"""
    par = {}

    def find(x):
        while x in par:
            x = par[x]
        return x
    for c in hyps:
        if c.op == 'req':
            a, b = c.args
            if a.op in ('rv', 'relem', 'rc') and b.op in ('rv', 'relem', 'rc'):
                a, b = find(a), find(b)
                if a is b:
                    continue
                # prefer constants, then older terms
                if b.op == 'rc' or (a.op != 'rc' and b.id < a.id):
                    a, b = b, a
                par[b] = a
    m = {x: find(x) for x in par}
    fx = {}
    for c in hyps:    # value given by a function of other values
        if c.op == 'req':
            for a, b in (c.args, c.args[::-1]):
                if a.op in ('rv', 'relem') and b.op == 'fn':
                    a, b = find(a), subst(b, m)
                    if a.op != 'rc' and a not in m and not occurs(a, b) and not any(occurs(x, b) for x in m if m[x] is not find(x)):
                        m = {x: subst(v, {a: b}) for x, v in m.items()}
                        m[a] = b
                    elif a.op != 'rc' and a not in m and occurs(a, b):
                        fx[b] = a    # f(.. x ..) = x
                    break
    return m, fx


def occurs(a, t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x is a:
            return True
        if x not in seen:
            seen.add(x)
            todo.extend(y for y in targs(x) if isinstance(y, T))
    return False


def index_map(pc, idx):
    """indices entailed equal by the path condition -> one representative (constants first)"""
    idx = sorted(idx, key=lambda i: (i.op != 'ic', i.id))
    m, reps = {}, []
    for i in idx:
        for r in reps:
            if (i.op != 'ic' or r.op != 'ic') and entails(pc, ieq(i, r)):
                m[i] = r
                break
        else:
            reps.append(i)
    return m


def reindex(t, m):
    """rewrite element indices"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'relem' and x.args[1] in m:
            r = relem(x.args[0], m[x.args[1]], x.args[2])
        else:
            a = targs(x)
            r = x
            sub = {y: go(y) for y in a if isinstance(y, T)}
            sub = {k: v for k, v in sub.items() if k is not v}
            if sub:
                r = subst(x, sub)
        memo[x] = r
        return r
    return go(t)


def with_eqs(pc, ts):
    gi = goal_indices(ts)
    pc = list(pc)
    if len(gi) > 1:
        im = index_map(pc, gi | goal_indices([c for c in pc if c.op == 'req']))
        im = {k: v for k, v in im.items() if v is not k}
        if im:
            iv = {k: v for k, v in im.items() if k.op == 'iv'}
            rest = {k: v for k, v in im.items() if k.op != 'iv'}
            f = lambda t: (subst(reindex(t, rest) if rest else t, iv) if isinstance(t, T) else t)
            ts = [f(t) for t in ts]
            pc = [f(c) if c.op == 'req' else c for c in pc]
            gi = {im.get(i, i) for i in gi}
    hy = pc + instances(pc, gi)
    m, fx = eq_map(hy)
    ts = [subst(t, m) if isinstance(t, T) else t for t in ts]
    return [subst(t, fx) if isinstance(t, T) else t for t in ts] if fx else ts


def unify_calls(pc, ts):
    """applications of the same matrix function whose arguments are provably equal are made syntactically equal"""
    calls = {}
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'fn' and len(t.args) > 3 and t.args[0][-2:].isdigit():
            calls.setdefault(t.args[0][:-2], {}).setdefault(t.args[1:], set()).add(t)
        for a in targs(t):
            go(a)
    for t in ts:
        if isinstance(t, T):
            go(t)
    m = {}
    for name, d in calls.items():
        tup = list(d)
        rep = []
        for args in tup:
            for r in rep:
                try:
                    if len(r) == len(args) and all(x is y or prove_eq(list(pc), x, y, None, 3, 0, [20])[0] == 'proved' for x, y in zip(r, args)):
                        for t in d[args]:
                            m[t] = fn(t.args[0], *r)
                        break
                except Unknown:
                    continue
            else:
                rep.append(args)
    if not m:
        return ts
    return [subst(t, m) if isinstance(t, T) else t for t in ts]


class Prover:
    """collects equality obligations of one function"""

    def __init__(self, rec, fn, dom=None):
        self.rec, self.fn, self.dom = rec, fn, dom or phys_dom

    def eq(self, name, pc, got, want, tries=40):
        if not isinstance(want, T) and isinstance(want, (int, float)) and isinstance(got, T):
            want = rc(want) if got.sort == 'R' else ic(want)
        if isinstance(got, (int, float)) and isinstance(want, T):
            got = rc(got) if want.sort == 'R' else ic(got)
        if isinstance(got, (int, float)) and isinstance(want, (int, float)):
            s = 'proved' if got == want else 'refuted'
            return self.rec.add(self.fn, name, s, '%r / %r' % (got, want))
        if isinstance(got, T) and isinstance(want, T):
            got, want = with_eqs(pc, [got, want])
        s, d, c = prove_eq(list(pc), got, want, self.dom, tries)
        self.add(name, s, d, c)
        return s

    def add(self, name, s, d, c):
        if s == 'unknown' and (terms.NFCUT[0] or 'Clobbered object' in str(d)):      # products abstracted, or a loop without summary: a limit of the verifier
            self.rec.add(self.fn, 'symbolic execution', s, 'verifier limit: %s: %s' % (name, d))
        else:
            self.rec.add(self.fn, name, s, d, c)

    def eqs(self, name, pc, pairs):
        """many equalities under the same hypotheses, one obligation each"""
        pairs = list(pairs)
        flat = []
        for _, g, w in pairs:
            flat += [R(g) if isinstance(g, (int, float)) else g, R(w) if isinstance(w, (int, float)) else w]
        flat = with_eqs(pc, flat)
        flat = unify_calls(pc, flat)
        for k, (n, _, _) in enumerate(pairs):
            s, d, c = prove_eq(list(pc), flat[2 * k], flat[2 * k + 1], self.dom)
            self.add(name + ' ' + n, s, d, c)

    def holds(self, name, pc, c, detail=''):
        if c is TRUE or entails(pc, c):
            self.rec.add(self.fn, name, 'proved', 'z3')
            return True
        if c is FALSE and feasible(pc):
            self.rec.add(self.fn, name, 'refuted', detail or 'false on a feasible path', {'path': [str(x) for x in pc][:40]})
            return False
        r = numeric_sat(list(pc) + [bnot(c)], self.dom)
        if r is not None:
            self.rec.add(self.fn, name, 'refuted', detail or str(c)[:200], r)
            return False
        self.rec.add(self.fn, name, 'unknown', 'not entailed: %s' % str(c)[:300])
        return False

    def fact(self, name, ok, detail='', cex=None):
        self.rec.add(self.fn, name, 'proved' if ok else 'refuted', detail, cex)

    def unknown(self, name, detail):
        self.rec.add(self.fn, name, 'unknown', detail)


def numeric_sat(pc, dom, tries=40):
    for s in range(tries):
        env = Env(seed=s, dom=dom)
        try:
            if all(ev(c, env) for c in pc):
                return {'reals': {str(k): str(v)[:14] for k, v in list(env.vals.items())[:30]},
                        'ints': {str(k): v for k, v in env.ints.items()}}
        except (NumFail, OverflowError):
            continue
    return None


# ------------------------------------------------------------------ physical domains for numeric search
POS = ('IonEs', 'IonEk', 'IonW', 'gamma', 'SampleFreq', 'SampleLambda', 'SampleIonK', 'IonZ', 'IonQ', 'beta', 'bg')
POFF = {0: 'IonZ', 8: 'IonQ', 16: 'IonEs', 24: 'IonW', 32: 'gamma', 40: 'beta', 48: 'bg', 56: 'SampleFreq',
        64: 'SampleLambda', 72: 'SampleIonK', 80: 'phis', 88: 'IonEk'}


def phys_dom(kind, key, u):
    nm = None
    if kind == 'el':
        fam, i, off = key
        if 'real' in str(fam):
            nm = POFF.get(off)
    else:
        nm = str(key).split('.')[-1]
    if nm in POS:
        if nm == 'beta':
            return 0.05 + 0.8 * u
        if nm == 'gamma':
            return 1.02 + u
        return 0.3 + 2.4 * u
    return default_dom(kind, key, u)


PF = ['IonZ', 'IonQ', 'IonEs', 'IonW', 'gamma', 'beta', 'bg', 'SampleFreq', 'SampleLambda', 'SampleIonK', 'phis', 'IonEk']
PO = {n: 8 * i for i, n in enumerate(PF)}
INDEP = ['IonZ', 'IonQ', 'IonEs', 'SampleFreq', 'phis', 'IonEk']


def recalc_spec(p):
    """p: dict of independent fields -> dict of all fields (definition of a consistent particle)"""
    r = dict(p)
    r['IonW'] = p['IonEs'] + p['IonEk']
    r['gamma'] = where(ne(p['IonEs'], 0), lambda: r['IonW'] / p['IonEs'], 1.0)
    r['beta'] = sqrt(1 - 1 / (r['gamma'] * r['gamma']))
    r['bg'] = where(ne(r['beta'], 0), lambda: r['beta'] * r['gamma'], 1.0)
    r['SampleLambda'] = C0 / p['SampleFreq'] * MtoMM
    r['SampleIonK'] = 2 * PI / (r['beta'] * r['SampleLambda'])
    return r


RECALC = '_ZN8Particle6recalcEv'


def h_recalc(ex, st, a, n):
    """contract of Particle::recalc (obligations: s_state, task Particle::recalc): the dependent fields from the independent ones, nothing else"""
    at = {f: Ptr(a[0].r, iadd(a[0].o, ic(PO[f]))) for f in PF}
    q = recalc_spec({f: ex.load(st, at[f], ("d",)) for f in INDEP})
    for f in PF:
        if f not in INDEP:
            ex.store(st, at[f], q[f], ("d",))


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


def pspec(p):
    return NS(recalc_spec(p))


def brho(p):
    return p.beta * p.IonW / (C0 * p.IonZ)


# ------------------------------------------------------------------ MomentState symbolic object
class MState:
    """symbolic MomentState with n charge states"""

    def __init__(self, ctx, ex, st, n, name='S', tu='moment', consistent=False):
        self.ctx, self.ex, self.n, self.name, self.tu = ctx, ex, n, name, tu
        self.o = new_obj(ctx, ex, st, 'MomentState', name, tu=tu,
                         counts={p: n for p in ('real', 'moment0', 'moment1', 'transmat')})
        vt = vtable_ptr(ctx, ex, st, '11MomentState', tu)
        ex.store(st, self.o.ptr, vt, PTR)
        st.mem[self.o.reg.id].tag = ('obj', '_ZTI11MomentState')
        if consistent:
            r = pspec(self.ref(st, INDEP))
            for f in PF:
                if f not in INDEP:
                    self.o.set(st, 'ref.' + f, getattr(r, f))
            kv = ivar('$c')
            b = ex.load(st, self.o.p('real'), PTR)
            reg = st.rw(b.r)
            q = recalc_spec({f: relem(reg.fam, kv, PO[f]) for f in INDEP})
            reg.log = (('map', kv, I0, n, {PO[f]: (8, q[f]) for f in PF if f not in INDEP}),)

    @property
    def ptr(self):
        return self.o.ptr

    def ref(self, st, fields=PF):
        return {f: self.o.get(st, 'ref.' + f) for f in fields}

    def real(self, st, i, fields=PF):
        return {f: self.o.velem(st, 'real', i, PO[f]) for f in fields}

    def m0(self, st, i):
        return [self.o.velem(st, 'moment0', i, 8 + 8 * k) for k in range(7)]

    def mat(self, st, path, i):
        return [[self.o.velem(st, path, i, 24 + 8 * (7 * r + c)) for c in range(7)] for r in range(7)]

    def env_vec(self, st, path):
        a = self.o.off(path)
        return [self.ex.load(st, Ptr(self.o.reg.id, ic(a + 8 + 8 * k)), ('d',)) for k in range(7)]

    def env_mat(self, st, path):
        a = self.o.off(path)
        return [[self.ex.load(st, Ptr(self.o.reg.id, ic(a + 24 + 8 * (7 * r + c))), ('d',)) for c in range(7)] for r in range(7)]

    def sizes(self, st):
        return {p: self.o.vsize(st, p, s) for p, s in (('real', 96), ('moment0', 64), ('moment1', 416), ('transmat', 416))}


def frame_unchanged(P, name, ex, s0, s1, reg0, allowed=(), n=None):
    """every cell of flat region reg0 outside the `allowed` [lo,hi) byte ranges is as in s0"""
    r0, r1 = s0.mem[reg0], s1.mem[reg0]
    if r0 is r1:
        P.fact(name, True, 'region untouched')
        return
    bad = []
    for off, c in r1.cells.items():
        o = off if isinstance(off, int) else (off[1] if len(off) > 1 else None)
        if o is None or any(lo <= o < hi for lo, hi in allowed):
            continue
        if not isinstance(off, int):
            if r0.cells.get(off) != c:
                bad.append((off, r0.cells.get(off), c))
            continue
        if isinstance(c[1], T):
            old = ex.flat_read(s0, r0, off, c[0], ex.kind_ty('R' if c[1].sort == 'R' else 'I', c[0]))
            if old is c[1]:
                continue
            if isinstance(old, T):
                a, b = with_eqs(s1.pc, [c[1], old])
                st_, d, cx = prove_eq(list(s1.pc), a, b, P.dom)
                if st_ == 'proved':
                    continue
                P.rec.add(P.fn, '%s: %s' % (name, r1.names.get(off, off)), st_, d, cx)
                bad.append(None)
                continue
            bad.append((off, old, c[1]))
        else:
            old = r0.cells.get(off)
            if old is None or not same(old[1], c[1]):
                bad.append((off, old, c[1]))
    if not bad:
        P.fact(name, True)
    for b in bad:
        if b is not None:
            P.rec.add(P.fn, name, 'unknown', 'cell %r changed: %r -> %r' % b)
