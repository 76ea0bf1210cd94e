#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property on /repo's working tree
   check.py --replay FILE                  replay a recorded violation
   check.py --build [HARNESS...]           port and build only
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Anything else: the machinery failed."""
import sys, os, re, json, time, hashlib, subprocess, shutil, fcntl, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('NNTL_REPO', '/repo')
BUILD = os.path.join(V, 'build'); EVID = os.path.join(V, 'evidence')
CFG = json.load(open(os.path.join(V, 'checks.json')))
CXX = os.environ.get('CXX', 'clang++-18'); NPROC = min(8, os.cpu_count() or 8)
def die(msg, code=3):
    print('ERROR: ' + msg, file=sys.stderr); sys.exit(code)
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def tree_digest(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root): h.update(open(root, 'rb').read()); continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(os.path.relpath(p, root).encode())
                if os.path.isfile(p): h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
def build(harness):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        flags = open(os.path.join(V, 'build_flags.txt')).read().split()
        key = tree_digest([os.path.join(REPO, 'nntl'), os.path.join(V, 'port'), os.path.join(V, 'shim'), os.path.join(V, 'sim'), os.path.join(V, 'harness', harness + '.cpp'),
                           os.path.join(V, 'harness', 'common.h'), os.path.join(V, 'build_flags.txt')] + [os.path.join(V, 'harness', x) for x in CFG['harness_includes'].get(harness, [])])
        exe = os.path.join(BUILD, harness + '-' + key)
        if os.path.exists(exe): return exe
        for f in os.listdir(BUILD):
            if f.startswith(harness + '-'): os.unlink(os.path.join(BUILD, f))
        wd = os.path.join(BUILD, 'w_' + harness); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
        r = sh([sys.executable, os.path.join(V, 'port', 'port.py')] + (['--small'] if harness in CFG['small_thresholds'] else []) + [os.path.join(REPO, 'nntl'), os.path.join(wd, 'port', 'nntl', 'nntl')])
        if r.returncode: die('porting the header tree failed:\n' + r.stdout[-3000:])
        inc = ['-include', os.path.join(V, 'shim', 'msvc_compat.h'), '-I' + os.path.join(V, 'shim/a/b/c'), '-I' + os.path.join(V, 'shim'), '-I' + os.path.join(V, 'harness'), '-I' + os.path.join(wd, 'port', 'nntl')]
        inst = [x for x in ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']]
        jobs = [[CXX] + flags + inc + ['-c', os.path.join(V, 'harness', harness + '.cpp'), '-o', wd + '/h.o'],
                [CXX, '-std=c++17', '-O2', '-g1', '-w', '-fno-omit-frame-pointer', '-fno-pie', '-c', os.path.join(V, 'sim/sim.cpp'), '-o', wd + '/sim.o'],
                [CXX, '-std=c++17', '-O1', '-g1', '-w', '-fno-pie', '-fno-omit-frame-pointer', '-ffp-contract=off'] + inst + ['-c', os.path.join(V, 'sim/blas.cpp'), '-o', wd + '/blas.o']]
        with ThreadPoolExecutor(3) as ex: res = list(ex.map(sh, jobs))
        for r in res:
            if r.returncode: die('building harness %s failed:\n%s' % (harness, '\n'.join(l[:400] for l in r.stdout.splitlines() if 'error' in l or 'instantiation' in l)[:4000]))
        r = sh([CXX, '-no-pie', '-rdynamic', '-Wl,-z,now', '-pthread', wd + '/h.o', wd + '/sim.o', wd + '/blas.o', '-ldl', '-o', exe + '.tmp'])
        if r.returncode: die('linking harness %s failed:\n%s' % (harness, r.stdout[:3000]))
        os.rename(exe + '.tmp', exe); shutil.rmtree(wd, ignore_errors=True)
        return exe
    finally: lock.close()
# ---------------------------------------------------------------------------------------------------
def replay(exe, lines, head, extra=(), timeout=120, tag='m'):
    fn = os.path.join(EVID, '.tmp_%s_%d_%s' % (head['property'], os.getpid(), tag))
    with open(fn, 'w') as f:
        f.write('nntl-dst-replay 1\nproperty %s\nscenario %s\nseed %s\n' % (head['property'], head['scenario'], head['seed'])); f.writelines(l + '\n' for l in lines)
    try:
        r = subprocess.run([exe, 'replay', fn] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError): return None
    finally:
        try: os.unlink(fn)
        except OSError: pass
def same(r, cls): # both name a run that never ends
    return bool(r and r['violation'] and (r['violation']['class'] == cls or {r['violation']['class'], cls} <= {'hang', 'no-progress'}))
def minimise(exe, head, lines, cls, budget):
    t0 = time.time()
    def ok(ls, tag, extra=()):
        return same(replay(exe, ls, head, extra, tag=tag), cls)
    # 1. drop whole operations (the schedule is drawn anew from the same seed)
    r = replay(exe, lines, head); nops = (r or {}).get('ops', 0); drops = []
    if nops and nops <= 64:
        for k in range(nops - 1, -1, -1):
            if time.time() - t0 > budget * .4: break
            out = os.path.join(EVID, '.tmp_gen_%s_%d' % (head['property'], os.getpid()))
            r = replay(exe, drops + ['O 0 %d 0' % k], head, ['x', 'gen', out], tag='o')
            if same(r, cls) and os.path.exists(out):
                ls = [l.rstrip('\n') for l in open(out) if re.match(r'^[A-Z] \d+ \d+ ', l)]
                if ok(ls, 'o'): drops.append('O 0 %d 0' % k); lines = ls
            if os.path.exists(out): os.unlink(out)
    # 2. delta debugging over the recorded deviations
    n = 2
    with ThreadPoolExecutor(NPROC) as ex:
        while len(lines) > 0 and time.time() - t0 < budget:
            size = max(1, (len(lines) + n - 1) // n); parts = [lines[:i] + lines[i + size:] for i in range(0, len(lines), size)]; hit = None
            for b in range(0, len(parts), NPROC):
                if time.time() - t0 > budget: break
                res = list(ex.map(lambda x: ok(x[1], 'd%d' % x[0]), enumerate(parts[b:b + NPROC])))
                for i, v in enumerate(res):
                    if v: hit = parts[b + i]; break
                if hit is not None: break
            if hit is not None: lines = hit; n = max(2, n - 1)
            elif size == 1: break
            else: n = min(len(lines), n * 2)
    return lines
def parse_trace(fn):
    head, lines = {}, []
    for l in open(fn):
        l = l.rstrip('\n'); m = re.match(r'^(property|scenario|seed|class) (\S+)', l)
        if m: head[m.group(1)] = m.group(2)
        elif re.match(r'^[A-Z] \d+ \d+ ', l): lines.append(l)
    return head, lines
def known_for(prop):
    p = os.path.join(V, 'known_findings.json')
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop] if os.path.exists(p) else []
KIND = {'S': 'switch to thread', 'T': 'stall for events', 'W': 'spurious wake-up at wait', 'G': 'signal goes to waiter', 'C': 'clock jump ns', 'A': 'allocation fails', 'I': 'i/o fault kind', 'O': 'operation dropped', 'P': 'system call fails'}
def check(prop, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1')); c = CFG['properties'][prop]; os.makedirs(EVID, exist_ok=True)
    secs = float(os.environ.get('VERIF_SECS', c.get(tier, {'quick': 45, 'thorough': 900}[tier])))
    # a property may be decided by several harnesses
    total = None; viol = None; knownhits = 0
    hs = c['harness'] if isinstance(c['harness'], list) else [c['harness']]
    agg = dict(runs=0, events=0, switches=0, syncops=0, sim_ns=0, double_runs=0, nondet=0, known=0); faults, probes, scen, samples, inter, kcases = {}, {}, {}, [], set(), {}
    kf = os.path.join(EVID, '.known_' + prop); ks = known_for(prop)
    with open(kf, 'w') as f: f.writelines('%s %s\n' % (k['class'], k['match'].replace(' ', '_')) for k in ks)
    buildt = 0; rss = 0; simwall = 0.0
    for hi, h in enumerate(hs):
        tb = time.time(); exe = build(h); buildt += time.time() - tb
        base = (seed * 1000003 + hi * 17) % (1 << 31) * 1000000
        procs = []
        for w in range(NPROC):
            out = os.path.join(EVID, '.out_%s_%d' % (prop, w))
            for e in ('.json', '.trace'):
                if os.path.exists(out + e): os.unlink(out + e)
            cap = c.get('max_runs', {}).get(tier, 10 ** 12)
            procs.append((w, out, subprocess.Popen([exe, 'run', prop, str(base + w * 100000000), str(cap), '%.1f' % (secs / len(hs)), out, kf], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')))
        ts = time.time(); pend = list(procs); bad = None; deadline = ts + secs / len(hs) + 240
        while pend:
            for x in list(pend):
                rc = x[2].poll()
                if rc is None: continue
                pend.remove(x)
                if rc not in (0, 1): bad = (x[0], rc, x[2].stderr.read()[-2000:])
                elif rc == 1 and viol is None: viol = (exe, x[1])
            if viol or bad or time.time() > deadline:
                if viol: time.sleep(.3)
                for x in pend: x[2].kill()
                for x in pend: x[2].wait()
                if not viol and not bad: bad = (-1, -1, 'a simulation process did not finish in time')
                break
            time.sleep(.02)
        simwall += time.time() - ts
        if bad and not viol: die('simulation process %d ended with %s: %s' % bad)
        for w, out, p in procs:
            if not os.path.exists(out + '.json'): continue
            try: d = json.load(open(out + '.json'))
            except ValueError: continue
            for k in agg: agg[k] += d[k]
            for a, b in ((faults, d['faults']), (probes, d['probes']), (scen, d['scenarios']), (kcases, d['known_cases'])):
                for k, v in b.items(): a[k] = a.get(k, 0) + v
            samples += d['samples'][:1]; inter.update(d['inter']); rss = max(rss, d['maxrss_kb'])
        if viol: break
    if agg['nondet'] and not viol: die('%d run(s) were not reproducible from their seed' % agg['nondet'])
    rc = 0; vinfo = None
    if viol:
        exe, out = viol; head, lines = parse_trace(out + '.trace'); d = json.load(open(out + '.json'))['violation']; cls = d['class']
        r1 = replay(exe, lines, head)
        if not same(r1, cls): die('violation %s (%s) seed %s did not reproduce in a fresh process' % (cls, d['detail'], head['seed']))
        n0 = len(lines); lines = minimise(exe, head, lines, cls, 60 if tier == 'quick' else 240)
        a, b = replay(exe, lines, head, ['x']), replay(exe, lines, head, ['x'])
        if not (same(a, cls) and same(b, cls) and (a['hash'] == b['hash'] or 'hang' in (cls, a['violation']['class'], b['violation']['class']))): die('minimised violation of %s does not replay' % prop)
        v = a['violation']; rp = os.path.join(EVID, 'replay_%s.trace' % prop)
        with open(rp, 'w') as f:
            f.write('nntl-dst-replay 1\nproperty %s\nscenario %s\nseed %s\nclass %s\n' % (prop, head['scenario'], head['seed'], cls))
            f.write('# %s\n# during: %s\n# stack: %s\n# fault at: %s\n# %d of %d deviations from the default schedule remain; replay: python3 check.py --replay %s\n' % (v['detail'], v['context'], ' < '.join(v['frames'][:12]), ' < '.join(v['fault_frames'][:8]), len(lines), n0, rp))
            f.write('# each line: kind thread position argument\n'); f.writelines(l + '\n' for l in lines)
        vinfo = v; rc = 1
        print('violation class %s: %s' % (cls, v['detail'])); print('  during: %s' % v['context']); print('  stack: %s' % ' < '.join(v['frames'][:12]))
        print('  scenario %s seed %s, %d deviations (of %d):' % (head['scenario'], head['seed'], len(lines), n0))
        for l in lines[:30]: k, t, n, a_ = l.split(); print('    T%s #%s: %s %s' % (t, n, KIND.get(k, k), a_))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    for k in ks: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=1 if rc else 0,
        assumptions=CFG['assumptions'] + c.get('assumptions', []),
        coverage=dict(evaluations=agg['runs'], distinct_nontrivial=len(inter),
            rule='one evaluation = one simulated execution decided by one seed (workload, schedule, faults, configuration); distinct = different hash over the order of synchronisation operations (thread, operation, object), the number of context switches, the kind and position of failed allocations and file operations, and the states a scenario declares, counted over the union of all processes' + ('; ' + c['rule'] if 'rule' in c else ''),
            samples=samples, runs_per_hour=int(agg['runs'] / max(simwall, .01) * 3600), seeds_per_hour=int(agg['runs'] / max(simwall, .01) * 3600), simulated_seconds=round(agg['sim_ns'] / 1e9, 3), events=agg['events'], context_switches=agg['switches'],
            synchronisation_operations=agg['syncops'], faults_injected=faults, probes=probes, scenarios=scen, seeds_run_twice=agg['double_runs'], irreproducible_seeds=agg['nondet'], known_finding_hits=agg['known'], known_finding_cases=kcases,
            real_components=c['real'], stubbed_components=CFG['stubs'] + c.get('stubs', []), build_s=round(buildt, 1), max_rss_kb=rss))
    if vinfo: ev['coverage']['violation'] = vinfo
    with open(os.path.join(EVID, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    for f in os.listdir(EVID):
        if f.startswith('.out_%s_' % prop) or f == '.known_' + prop or f.startswith('.tmp_%s_' % prop): os.unlink(os.path.join(EVID, f))
    print('%s %s: %d runs, %d distinct executions, %.1f simulated s, faults %s, %.1f s' % (prop, tier, agg['runs'], len(inter), agg['sim_ns'] / 1e9, json.dumps(faults), wall))
    return rc
def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == '--setup':
        for t in (CXX, 'git'):
            if not shutil.which(t): die('%s not found' % t)
        print('ok'); return 0
    if a[0] == '--build':
        for h in a[1:] or sorted({x for c in CFG['properties'].values() for x in ([c['harness']] if isinstance(c['harness'], str) else c['harness'])}): print(build(h))
        return 0
    if a[0] == '--replay':
        head, lines = parse_trace(a[1]); c = CFG['properties'][head['property']]; hs = c['harness'] if isinstance(c['harness'], list) else [c['harness']]; os.makedirs(EVID, exist_ok=True)
        for h in hs:
            exe = build(h)
            if (head['property'] + ' ' + head['scenario'] + ' ') in sh([exe, 'list']).stdout:
                r = replay(exe, lines, head, ['x']); print(json.dumps(r, indent=1)); return 1 if r and r['violation'] else 0
        die('no harness knows this scenario')
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if prop not in CFG['properties']: die('unknown property ' + prop)
    return check(prop, tier)
if __name__ == '__main__': sys.exit(main())
