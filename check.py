#!/usr/bin/env python3-vt
"""check.py PID [--tier quick|thorough] [--replay FILE] : decide one property against /repo's current working tree."""
import sys, os, json, time, re, argparse, collections, signal, importlib, traceback, random, resource, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'fv'), os.path.join(HERE, 'specs')]
sys.dont_write_bytecode = True
try:
    import z3
except ImportError:         # started with an interpreter that lacks the solver
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
import build
import props

ASSUME = [
    'double arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN or infinity); floating-point constants of the '
    'code are compared with the specification up to a relative tolerance of 2e-11',
    'denominators appearing in the code are non-zero and square-root/log arguments are in range on the specified domain',
    'sizes and indices do not overflow 63 bits; 64-to-32-bit truncations are value preserving',
    'assumed contracts of libstdc++ (containers, strings, streams), Boost (shared_ptr, variant, lexical_cast) and of the Boost uBLAS LU '
    'solver (result is the matrix inverse)',
    'distinct arguments passed by reference do not alias unless the caller in /repo aliases them',
    'no reference into a vector is used after push_back; sextupole step >= 1; scratch matrices of an element are 7x7; log output has no effect',
    'the extraction drops debug information, TBAA, and performs only inlining and scalar clean-up of the IR clang emits for /repo/src',
]


def limit_mem(gb=12):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except Exception:
        pass


# ------------------------------------------------------------------ native run-time contract checks, in a child process
def native_child(so, specs, tier, seed, scale, budget, out, part, parts):
    import native as N
    t0 = time.time()
    res = []
    L = N.Lib(so)
    for mod, name, q, th in specs:
        m = importlib.import_module(mod)
        f = m.CHECKS[name]
        n = int((th if tier == 'thorough' else q) * scale)
        done = 0
        for it in range(part, n, parts):
            if time.time() - t0 > budget:
                break
            rec = {'check': mod + '.' + name, 'seed': seed, 'case': it}
            N.current(out + '.cur', rec)
            signal.alarm(120)
            g = random.Random('%s/%s/%s' % (name, seed, it))
            try:
                L.case(it)
                f(L, g, it)
            except N.Fail as e:
                res.append({'kind': 'fail', 'what': e.what, 'input': e.inp, **rec})
                json.dump(res, open(out, 'w'), default=str)
                return
            except N.FlameError as e:
                res.append({'kind': 'fail', 'what': 'unexpected exception: %s' % e, 'input': N.CUR.get('input'), **rec})
                json.dump(res, open(out, 'w'), default=str)
                return
            except N.Skip:
                continue
            except Exception:
                res.append({'kind': 'harness', 'what': traceback.format_exc(limit=-4)[-1500:], **rec})
                break
            finally:
                signal.alarm(0)
            done += 1
        for k, v in N.FOUND.items():
            res.append({'kind': 'finding', 'key': k, **v, 'check': mod + '.' + name, 'seed': seed})
        N.FOUND.clear()
        res.append({'kind': 'ok', 'check': mod + '.' + name, 'cases': done, 'requested': len(range(part, n, parts)), 'seed': seed})
    json.dump(res, open(out, 'w'), default=str)


def run_native(so, specs, tier, seed, scale=1.0, budget=200, tag='', parts=8):
    """-> list of results; the cases are dealt out to several processes; a crash or hang of the real code is a failing input"""
    kids = []
    sys.stdout.flush()
    for j in range(parts):
        out = os.path.join(build.scratch(), 'native-%s%d.json' % (tag, j))
        pid = os.fork()
        if pid == 0:
            try:
                limit_mem(8)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                native_child(so, specs, tier, seed, scale, budget, out, j, parts)
                os._exit(0)
            except BaseException:
                try:
                    json.dump([{'kind': 'harness', 'what': traceback.format_exc()[-1500:]}], open(out, 'w'))
                finally:
                    os._exit(3)
        kids.append((pid, out))
    res = []
    for pid, out in kids:
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            try:
                cur = json.load(open(out + '.cur'))
            except Exception:
                cur = {}
            sg = os.WTERMSIG(st)
            what = 'the code does not terminate (120 s)' if sg == signal.SIGALRM else 'the process is killed by signal %d' % sg
            # SIGKILL comes from outside (memory), not from the code
            res.append({'kind': 'harness' if sg == signal.SIGKILL else 'fail', 'what': what, **cur})
            continue
        try:
            res += json.load(open(out))
        except Exception:
            res.append({'kind': 'harness', 'what': 'no result (status %r)' % st})
    ok = {}
    for r in res:
        if r['kind'] == 'ok':
            o = ok.setdefault(r['check'], dict(r, cases=0, requested=0))
            o['cases'] += r['cases']
            o['requested'] += r['requested']
    return sorted([r for r in res if r['kind'] != 'ok'], key=lambda r: (r.get('check', ''), r.get('case', 0))) + list(ok.values())


# ------------------------------------------------------------------ deductive part
def run_proofs(p, tier, budget):
    import verify
    from model import Ctx
    ctx = Ctx(p['tus'])
    tasks = []
    errs = []
    for mod, rx in p['tasks']:
        m = importlib.import_module(mod)
        try:
            tasks += [t for t in m.tasks(ctx) if re.search(rx, t.name)]
        except Exception as e:
            errs.append((mod, traceback.format_exc(limit=-3)[-800:]))
    tasks.sort(key=lambda t: -getattr(t, 'cost', 1))
    if tier == 'thorough':
        for t in tasks:
            t.timeout *= 4
    return ctx, verify.run_tasks(tasks, int(os.environ.get('FV_PROCS', '8')), budget), errs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid = a.pid
    p = props.PROPS[pid]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)

    if a.replay:
        r = json.load(open(a.replay))
        f = r.get('failing_input')
        if not f:
            print(json.dumps(r, indent=1))
            return 1
        so = build.build_native()
        mod, name = f['check'].rsplit('.', 1)
        import native as N
        L = N.Lib(so)
        g = random.Random('%s/%s/%s' % (name, f['seed'], f['case']))
        try:
            L.case(f['case'])
            importlib.import_module(mod).CHECKS[name](L, g, f['case'])
        except (N.Fail, N.FlameError) as e:
            print('REPRODUCED:', e)
            return 1
        print('not reproduced')
        return 0

    # build the native library in a thread while the proofs load
    from concurrent.futures import ThreadPoolExecutor
    so, nat_err = None, None
    build.scratch()
    build.generate_parser()
    with ThreadPoolExecutor(2) as tp:
        fn = tp.submit(build.build_native) if p['native'] else None
        fi = tp.submit(build.build_all_ir, p['tus'])
        ir_err = None
        try:
            fi.result()
        except build.BuildError as e:
            ir_err = str(e)
        if fn:
            try:
                so = fn.result()
            except build.BuildError as e:
                nat_err = str(e)
    native_res = []
    nat_budget = 1200 if a.tier == 'thorough' else 200
    if so:
        native_res = run_native(so, p['native'], a.tier, seed, 1.0, nat_budget, 'a')
    results, errs = [], []
    if ir_err is None:
        try:
            # quick: the whole check stays below 850 s; a failing input already at hand makes long proof attempts pointless
            budget = 1500 if a.tier == 'thorough' else max(60, 500 - (time.time() - t0))
            if any(r['kind'] == 'fail' for r in native_res):
                budget = min(budget, 180)
            ctx, results, errs = run_proofs(p, a.tier, budget)
        except Exception:
            errs.append(('proofs', traceback.format_exc()[-1500:]))
    else:
        errs.append(('build', ir_err[-1500:]))

    # ---- collect
    rx = re.compile(p['obl']) if p.get('obl') else None
    obls, functions, notes = [], set(), set()
    back = collections.Counter()
    solver_s = 0.0
    per = []
    for r in results:
        o = [x for x in r.obls if x[2] == 'unknown' and x[1] in ('symbolic execution', 'non-vacuity') or rx is None or rx.search(x[1])]
        obls += o
        functions |= set(r.functions)
        notes |= set(tuple(n) for n in r.notes)
        solver_s += r.stats.get('solver_s', 0.0)
        per.append({'task': r.name, 'obligations': len(o), 'discharged': sum(x[2] == 'proved' for x in o), 'seconds': round(r.dt, 1)})
        for x in o:
            back[props.backend(x)] += x[2] == 'proved'
    proved = [x for x in obls if x[2] == 'proved']
    refuted = [x for x in obls if x[2] == 'refuted']
    limit = [x for x in obls if x[2] == 'unknown' and x[1] in ('symbolic execution', 'non-vacuity')]
    unproved = [x for x in obls if x[2] == 'unknown' and x not in limit]
    # a deviation the specification names (note 'KF') is suppressed only if it is listed for this property
    kf = props.known_findings(os.path.join(HERE, 'known-findings.txt'))
    known = [x for x in notes if x[0] == 'KF' and (pid, x[1]) in kf]
    for x in notes:
        if x[0] == 'KF' and (pid, x[1]) not in kf:
            refuted.append((x[1], 'deviation from the specification', 'refuted', 'not listed in known-findings.txt', None))
    for r in native_res:
        if r['kind'] == 'finding':
            if (pid, r['key']) in kf:
                known.append(('KF', r['key']))
            else:
                r['kind'] = 'fail'
    known = sorted(set(known))
    fails = [r for r in native_res if r['kind'] == 'fail']
    bounded = None
    if not fails and so and (refuted or unproved or limit or errs):
        # look for a failing input for the obligations which are not discharged
        bounded = run_native(so, p['native'], a.tier, seed + 7919, 6.0, 240, 'b')
        fails = [r for r in bounded if r['kind'] == 'fail']

    # ---- decide
    viol = 0
    lines = []
    replay = os.path.join(ev, '%s.replay.json' % pid)
    obj = {'property': pid, 'tier': a.tier}
    bad = refuted + unproved
    if bad:
        obj['failed_obligations'] = [{'function': x[0], 'obligation': x[1], 'status': x[2], 'verifier': x[3], 'counterexample': x[4]} for x in bad[:40]]
    if fails:
        viol = 1
        obj['failing_input'] = fails[0]
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay))
    elif bad:
        viol = 1
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
    if viol:
        json.dump(obj, open(replay, 'w'), indent=1, default=str)
        for x in bad[:10]:
            print('failed obligation: %s: %s [%s] %s' % (x[0], x[1], x[2], str(x[3])[:200]))
        for f in fails[:1]:
            print('failing input: %s' % str(f)[:1500])
    elif os.path.exists(replay):
        os.unlink(replay)
    for _, k in sorted(known):
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf[(pid, k)]))
    for x in limit:
        print('not decided by proof (bounded run-time contract check only): %s: %s' % (x[0], str(x[3])[:300]))
    for e in errs:
        print('verifier: %s: %s' % e)
    if nat_err:
        print('native build: ' + nat_err[-1500:])
    for r in native_res:
        if r['kind'] == 'harness':
            print('harness: ' + r['what'])

    cov = {
        'obligations': len(obls), 'discharged': len(proved),
        'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, a.tier),
        'trusted_base': ['clang 18 (IR of the real sources)', 'fv/ symbolic executor and verification-condition generator',
                         'z3 (path conditions, indices)', 'fv/terms.py normal-form equality prover'] + p.get('trusted', []),
        'functions_under_contract': sorted(demangled(functions)),
        'tasks': per,
        'discharged_by': dict(back),
        'solver_seconds': round(solver_s, 1),
        'undischarged_verifier_limit': [{'function': x[0], 'detail': str(x[3])[:300]} for x in limit] + [{'function': e[0], 'detail': e[1][:300]} for e in errs],
        'bounded_runtime_contract_checks': [r for r in native_res if r['kind'] != 'fail'] + [r for r in bounded or [] if r['kind'] != 'finding'],
        'bounded_note': 'bounded: the run-time contract checks sample inputs, they support replay and stand in only for the functions '
                        'listed under bounded_functions; they are not counted as discharged obligations',
        'bounded_functions': p.get('bounded', []),
        'evaluations': sum(r.get('cases', 0) for r in native_res),
    }
    e = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': p.get('level', 'proof'), 'coverage': cov,
         'assumptions': ASSUME + p.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': viol}
    json.dump(e, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d functions under contract, %d run-time cases, %.0f s' %
          (pid, len(obls), len(proved), len(functions), cov['evaluations'], time.time() - t0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if viol else 0


def demangled(names):
    names = sorted(n.split(':')[-1] for n in names)
    return sorted(set(build.demangle(names).values())) if names else []


if __name__ == '__main__':
    sys.exit(main())
