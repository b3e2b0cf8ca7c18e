#!/usr/bin/env -S python3-vt
"""check.py <property> : decide one property on /repo's current tree.

1. proof: the functions under contract are extracted from /repo (clang -> LLVM IR), symbolically
   executed against their contracts, and every obligation is discharged by z3 (cvc5 second).
2. replay: the property's executable oracle is built from /repo and run; it supplies failing inputs
   for failed obligations and is the (labelled) bounded stand-in where the verifier has no reach.
"""
import sys, os, json, time, subprocess, tempfile, shutil, threading, signal, re, select
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'vcg')); sys.dont_write_bytecode = True
REPO = os.environ.get('VP_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
PROOF_BUDGET = {'quick': 480, 'thorough': 660}[TIER]
ORACLE_BUDGET = {'quick': 20, 'thorough': 150}[TIER]
CXX = ['g++', '-std=c++17', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fsanitize-recover=signed-integer-overflow,shift', '-ftrivial-auto-var-init=pattern', '-w']

def log(*a): print(*a, flush=True)

# ---------------------------------------------------------------- replay harnesses
class Oracle(threading.Thread):
    def __init__(s, src, env, work):
        super().__init__(daemon=True)
        s.src, s.env, s.work = src, dict(env), work
        s.state = 'not run'; s.text = ''; s.cases = 0; s.secs = 0.0; s.cmd = ''
        s.label = src + (':' + ','.join('%s' % v for v in env.values()) if env else '')
    lock = {}
    guard = threading.Lock()
    def run(s):
        try: s.go()
        except Exception as e: s.state = 'error'; s.text = repr(e)
    def build(s):
        exe = os.path.join(s.work, 'o_' + s.src)
        with Oracle.guard: lk = Oracle.lock.setdefault(exe, threading.Lock())
        with lk:
            if os.path.exists(exe): return exe
            if os.path.exists(exe + '.failed'): s.text = open(exe + '.failed').read(); return None
            inc = ['-I', os.path.join(VERIF, 'stub'), '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src')]
            ext = {'py': ['-O0', '-I/usr/include/python3.12', '-lpython3.12']}.get(s.src, [])
            r = subprocess.run(CXX + inc + [os.path.join(VERIF, 'replay', s.src + '.cpp'), '-o', exe, '-pthread'] + ext,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=400)
            if r.returncode != 0:   # something the stand-in header lacks: try the real SYCL headers (host code only)
                sy = '/opt/sycl'
                r2 = subprocess.run(CXX + ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'), '-isystem', sy + '/include', '-isystem', sy + '/include/sycl',
                                    os.path.join(VERIF, 'replay', s.src + '.cpp'), '-o', exe, '-L' + sy + '/lib', '-lsycl', '-Wl,-rpath,' + sy + '/lib', '-pthread'] + ext,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=400)
                if r2.returncode == 0: return exe
            if r.returncode != 0:
                open(exe + '.failed', 'w').write(r.stdout[-3000:]); s.text = r.stdout[-3000:]; return None
            return exe
    def go(s):
        exe = s.build()
        if exe is None: s.state = 'does not build'; return
        env = dict(os.environ); env.update(s.env); env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1048576'; env['UBSAN_OPTIONS'] = 'abort_on_error=1:print_stacktrace=0'
        s.cmd = '%s %s %d %d' % (' '.join('%s=%s' % x for x in s.env.items()), s.src, SEED, ORACLE_BUDGET)
        try:
            r = subprocess.run([exe, str(SEED), str(ORACLE_BUDGET)], cwd=s.work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               text=True, errors='replace', timeout=ORACLE_BUDGET * 6 + 60)
        except subprocess.TimeoutExpired:
            s.state = 'inconclusive'; s.text = 'harness out of time'; return
        m = re.search(r'ORACLE-OK cases=(\d+) secs=([\d.]+)', r.stderr)
        if r.returncode == 0 and m:
            s.state = 'ok'; s.cases = int(m.group(1)); s.secs = float(m.group(2)); return
        if 'ORACLE-FAIL' in r.stderr:
            s.state = 'failing input'; open(FOUND, 'w').close(); k = r.stderr.index('ORACLE-FAIL'); s.text = r.stderr[k:k + 6000]; return
        s.state = 'inconclusive'; s.text = 'exit %s: %s' % (r.returncode, r.stderr[-1500:])

# ---------------------------------------------------------------- proofs
def verify_one(mod, cs, c, deadline):
    """in a forked child: returns a json-able report"""
    import run, poly, rpoly, logic
    from exec import Unsupported
    rep = {'contract': c.name, 'status': 'proved', 'obligations': []}
    t = time.time(); best = None
    choices = {}; tried = 0; shifts = {}; todo = None; bestcfg = {}, {}
    while True:
        E = run.Driver(mod, cs, budget=max(5, deadline - time.time())); E.choice = choices; E.shifts = shifts
        E.trivial = 0
        try:
            run.SEM.acquire()
            try: E.verify(c)
            finally: run.SEM.release()
        except Unsupported as e:
            cur = {'status': 'out of reach', 'why': str(e)[:400], 'obligations': [], 'E': E}
        except Exception as e:
            import traceback
            cur = {'status': 'out of reach', 'why': 'internal: ' + traceback.format_exc()[-600:], 'obligations': [], 'E': E}
        else:
            run.discharge(E.obls, cs, deadline=deadline)
            bad = [o for o in E.obls if not o.res[0]]
            if bad and not os.path.exists(FOUND) and not any(o.res[1] == 'sat' for o in bad):          # solver gave up: once more, with more time, before calling it a failure
                again = [o for o in bad if o.res[1] == 'unknown'][:4]
                run.discharge(again, cs, deadline=deadline, timeout=60000)
                bad = [o for o in E.obls if not o.res[0]]
            st = 'proved' if not bad else 'failed' if any(o.res[1] == 'sat' or o.res[1] == 'unknown' and o.res[4] != 'none' for o in bad) else 'undecided'
            cur = {'status': st, 'obligations': E.obls, 'E': E, 'bad': len(bad)}
        rank = {'proved': 0, 'failed': 1, 'undecided': 2, 'out of reach': 3}[cur['status']]
        if best is None or (rank, cur.get('bad', 0)) < (best[0], best[1].get('bad', 0)): best = (rank, cur); bestcfg = dict(choices), dict(shifts)
        tried += 1
        # other assignments of loop variables to the roles the loop contract names
        alts = getattr(E, 'choices', {})
        if best[0] == 0 or tried >= 12 or os.path.exists(FOUND) or time.time() > deadline: break
        nxt = dict(choices); done = todo is not None or tried >= 6
        for k, n in ({} if done else alts).items():
            done = True; nxt[k] = nxt.get(k, 0) + 1
            if nxt[k] < min(n, 6): done = False; break
            nxt[k] = 0
        if not alts and todo is None: done = True
        if done:
            # the same loop contract over a counter that runs one ahead or behind
            if best[0] != 1 or time.time() - t > 150: break
            if todo is None:
                names = {x: 1 for o in best[1]['obligations'] if not o.res[0] for x in re.findall(r'\((\w+)\)', o.name)}
                names.update({x: 2 for o in best[1]['obligations'] if not o.res[0] for x in re.findall(r'\((\w+)\) entry', o.name)})
                loops = list(getattr(best[1]['E'], 'seen_loops', {}))
                todo = [(k, d) for k in sorted(loops, key=lambda k: -names.get(k[1], 0)) for d in (1, -1)]
            if not todo: break
            k, d = todo.pop(0); choices = bestcfg[0]; shifts = dict(bestcfg[1]); shifts[k] = d
            continue
        choices = nxt
    cur = best[1]; E = cur['E']
    rep['status'] = cur['status']; rep['why'] = cur.get('why', '')
    rep['secs'] = round(time.time() - t, 2); rep['trivial'] = E.trivial; rep['paths'] = E.npaths
    rep['cover'] = {k: (v if isinstance(v, (str, int)) else str(v)) for k, v in E.cover.items()}
    rep['assumed'] = sorted(E.assumed); rep['library'] = sorted(E.intr_used); rep['callees'] = sorted(E.used_contracts)
    for o in cur['obligations']:
        rep['obligations'].append({'name': o.name, 'kind': o.kind, 'ok': o.res[0], 'reason': o.res[1], 'secs': o.res[2], 'backend': o.res[4],
                                   'detail': '' if o.res[0] else o.res[5], 'path': [] if o.res[0] else o.trace[-12:]})
    return rep

def run_proofs(prop, work, deadline):
    import registry, run, multiprocessing, build as B, extract, poly
    run.SEM = multiprocessing.get_context('fork').Semaphore(max(2, os.cpu_count() or 4))
    reports = []; procs = []
    for uname, sel in registry.PROPS[prop]['units']:
        u = registry.UNITS[uname]
        try:
            cs = u.contracts()
            want = [c for c in cs if sel(c.name) and not c.inline_only]
            txt = open(os.path.join(VERIF, 'vcg', 'drivers', u.driver + '.cpp')).read()
            mod = B.build(txt, cs, work, tag='u_' + uname, strip=u.strip)
        except Exception as e:
            reports.append({'contract': uname + ' (whole unit)', 'status': 'out of reach', 'why': 'extraction: ' + str(e)[-600:], 'obligations': []})
            continue
        for c in want:
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    rep = verify_one(mod, cs, c, deadline)
                except BaseException as e:
                    rep = {'contract': c.name, 'status': 'out of reach', 'why': 'internal: %r' % e, 'obligations': []}
                with os.fdopen(w, 'w') as f: f.write(json.dumps(rep))
                os._exit(0)
            os.close(w); procs.append((c.name, pid, r))
    for name, pid, r in procs:
        with os.fdopen(r) as f: t = f.read()
        os.waitpid(pid, 0)
        try: reports.append(json.loads(t))
        except Exception: reports.append({'contract': name, 'status': 'out of reach', 'why': 'verifier process ended', 'obligations': []})
    return reports

BASE = ['clang 18 front end and the LLVM passes sroa, mem2reg, instsimplify, simplifycfg, adce, loop-simplify preserve meaning',
        'vcg: IR parser, symbolic executor and quantifier instantiation in /verif/vcg', 'z3 5.3 / cvc5 1.4 answer unsat only for unsatisfiable formulas']

def main():
    prop = sys.argv[1]
    import registry
    P = registry.PROPS[prop]
    global FOUND
    work = tempfile.mkdtemp(prefix='votess_%s_' % prop); FOUND = os.path.join(work, 'found')
    rc = 0
    try:
        oracles = [Oracle(s, e, work) for s, e in P['oracles']]
        # proofs fork: start the harness threads from a helper process-free point
        pr, pw = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(pr)
            try: reps = run_proofs(prop, work, time.time() + PROOF_BUDGET)
            except BaseException as e: reps = [{'contract': 'all', 'status': 'out of reach', 'why': repr(e), 'obligations': []}]
            with os.fdopen(pw, 'w') as f: f.write(json.dumps(reps))
            os._exit(0)
        os.close(pw)
        for o in oracles: o.start()
        with os.fdopen(pr) as f: t = f.read()
        os.waitpid(pid, 0)
        try: reps = json.loads(t)
        except Exception: reps = [{'contract': 'all', 'status': 'out of reach', 'why': 'verifier process ended', 'obligations': []}]
        for o in oracles: o.join()
        rc = report(prop, P, reps, oracles)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc

def report(prop, P, reps, oracles):
    total = sum(len(r['obligations']) + r.get('trivial', 0) for r in reps)
    ok = sum(sum(1 for o in r['obligations'] if o['ok']) + r.get('trivial', 0) for r in reps)
    failed = [(r, o) for r in reps if r['status'] == 'failed' for o in r['obligations'] if o['reason'] in ('sat', 'unknown')]
    inputs = [o for o in oracles if o.state == 'failing input']
    nonproved = [r for r in reps if r['status'] != 'proved']
    backends = {}; solver = 0.0
    for r in reps:
        for o in r['obligations']:
            if o['ok']: backends[o['backend']] = backends.get(o['backend'], 0) + 1
            solver += o['secs']
    for r in reps:
        log('%-34s %-12s obligations %d (+%d by simplification) %.1fs %s' % (r['contract'], r['status'], len(r['obligations']), r.get('trivial', 0), r.get('secs', 0), r.get('why', '')[:160].replace('\n', ' ')))
    for o in oracles: log('harness %-26s %s cases=%d %.1fs %s' % (o.label, o.state, o.cases, o.secs, o.text[:200].replace('\n', ' ') if o.state not in ('ok', 'failing input') else ''))
    viol = 0
    replay = os.path.join(VERIF, 'evidence', 'replay_%s.txt' % prop)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if inputs or failed:
        viol = 1
        with open(replay, 'w') as f:
            f.write('property %s\n' % prop)
            for o in inputs:
                m = re.search(r'seed=(\d+) case=(-?\d+)', o.text)
                f.write('\nfailing input on the real code, harness replay/%s.cpp (environment %s), replay with arguments "%s %d %s":\n%s\n' % (o.src, o.env, m.group(1) if m else SEED, ORACLE_BUDGET, m.group(2) if m else '', o.text))
            for r, o in failed[:40]:
                f.write('\nfailed obligation: %s: %s\n  verifier: %s (%s)\n  path: %s\n  model: %s\n' % (r['contract'], o['name'], o['reason'], o['backend'], ' '.join(o['path']), o['detail'][:2500]))
        for r, o in failed[:10]: log('failed obligation: %s: %s' % (r['contract'], o['name']))
        for o in inputs: log(o.text[:1500])
        log('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if inputs else ' no-failing-input-found'))
    elif os.path.exists(replay): os.unlink(replay)
    assumed = set(); lib = set()
    for r in reps: assumed |= set(r.get('assumed', [])); lib |= set(r.get('library', []))
    level = P.get('level', 'proof')
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level,
          'coverage': {
              'obligations': total, 'discharged': ok, 'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
              'trusted_base': BASE + ['assumed contract: ' + x for x in sorted(lib)],
              'functions_under_contract': [{'contract': r['contract'], 'status': r['status'], 'obligations': len(r['obligations']) + r.get('trivial', 0),
                                            'discharged': sum(1 for o in r['obligations'] if o['ok']) + r.get('trivial', 0), 'slowest_s': max([o['secs'] for o in r['obligations']] or [0]), 'paths': r.get('paths', 0), 'uses': r.get('callees', []),
                                            'secs': r.get('secs', 0), 'vacuity': r.get('cover', {}), 'why': r.get('why', '')} for r in reps],
              'discharged_by': dict(backends, simplification=sum(r.get('trivial', 0) for r in reps)), 'solver_s': round(solver, 2),
              'bounded_standin_for': [r['contract'] for r in nonproved],
              'explanation': P.get('explanation', ''),
              'replay_harness': [{'harness': o.label, 'state': o.state, 'cases': o.cases, 'secs': o.secs, 'counted_as_proof': False} for o in oracles],
              'evaluations': sum(o.cases for o in oracles)},
          'assumptions': sorted(assumed) + P.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': viol}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('KNOWN-FINDING: property=%s ' % prop): log(l.strip())
    log('%s: %d/%d obligations discharged, %d contract(s) proved, %d bounded, %.1fs' % (prop, ok, total, len(reps) - len(nonproved), len(nonproved), time.time() - T0))
    return 1 if viol else 0

if __name__ == '__main__': sys.exit(main())
