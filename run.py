#!/usr/bin/env python3
"""Driver: setup | check <id> quick|thorough | job <file> [n]  -- see DESIGN.md."""
import sys, os, re, json, subprocess, time, shutil, hashlib, struct, mmap, tempfile, threading, glob, shlex, signal
V = os.path.dirname(os.path.abspath(__file__)); B = os.path.join(V, 'build'); REPO = os.environ.get('VP_REPO', '/repo')
CPUS = min(8, os.cpu_count() or 8)
BASEFL = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-gno-column-info', '-fno-vectorize', '-fno-slp-vectorize', '-include', 'vp_cfg.h', '-emit-llvm', '-c', '-w', '-ferror-limit=3']
UBSAN = 'shift-exponent,integer-divide-by-zero,return,unreachable,bool,enum,alignment,float-cast-overflow'
def log(*a): print(*a, file=sys.stderr, flush=True)
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files): h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]
def ensure_engine():
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, '.lock'), 'w'); import fcntl; fcntl.flock(lock, fcntl.LOCK_EX)
    ef = glob.glob(V + '/engine/*.cpp') + glob.glob(V + '/engine/*.h') + [V + '/engine/Makefile']
    mf = glob.glob(V + '/model/rt*.cpp') + glob.glob(V + '/include/*.h')
    d = digest(ef); st = B + '/engine.stamp'
    if not (os.path.exists(B + '/vpsym') and os.path.exists(st) and open(st).read() == d):
        r = sh(['make', '-C', V + '/engine', '-j%d' % CPUS])
        if r.returncode: log(r.stdout); raise SystemExit('engine build failed')
        open(st, 'w').write(d)
    d = digest(mf); st = B + '/model.stamp'
    if not (os.path.exists(B + '/rt.bc') and os.path.exists(st) and open(st).read() == d):
        outs = []
        for f in sorted(glob.glob(V + '/model/rt*.cpp')):
            o = B + '/' + os.path.basename(f)[:-4] + '.bc0'; outs.append(o)
            r = sh(['clang++'] + BASEFL + (['-fno-builtin'] if 'abi' in f else []) + ['-I' + V + '/include', f, '-o', o])
            if r.returncode: log(r.stdout); raise SystemExit('model build failed')
        r = sh(['llvm-link-18'] + outs + ['-o', B + '/rt.bc'])
        if r.returncode: log(r.stdout); raise SystemExit('model link failed')
        open(st, 'w').write(d)
    inc = B + '/include'; os.makedirs(inc, exist_ok=True)
    ln = inc + '/sharemind'
    if not (os.path.islink(ln) and os.readlink(ln) == REPO + '/src'):
        if os.path.islink(ln): os.unlink(ln)
        os.symlink(REPO + '/src', ln)
    lock.close()
def parse_jobs(pid):
    """Job lines in harness files:  //VP name=x tier=quick|thorough|both flags="-D.." opts="--preempt 2" ubsan="extra" desc="..." """
    jobs = []
    for f in sorted(glob.glob('%s/harness/%s/*.cpp' % (V, pid))):
        txt = open(f).read(); n = 0
        for m in re.finditer(r'^//VP\s+(.*)$', txt, re.M):
            kv = dict(x.split('=', 1) for x in shlex.split(m.group(1))); n += 1
            kv.setdefault('tier', 'both'); kv.setdefault('name', 'j%d' % n); kv['file'] = f
            kv['id'] = os.path.basename(f)[:-4] + '.' + kv['name']
            jobs.append(kv)
        if not n: jobs.append({'tier': 'both', 'name': 'main', 'file': f, 'id': os.path.basename(f)[:-4]})
    return jobs
def incs(j):
    r = ['-I' + V + '/include', '-I' + V + '/harness', '-I' + B + '/include']
    if j.get('shim'): r.append('-I' + V + '/shim')
    return r
def compile_job(j, wd):
    o = '%s/%s.bc' % (wd, j['id']); fl = shlex.split(j.get('flags', ''))
    ub = UBSAN + (',' + j['ubsan'] if j.get('ubsan') else '')
    cmd = ['clang++'] + BASEFL + fl + incs(j) + ['-fsanitize=' + ub, '-fsanitize-trap=all', j['file'], '-o', o]
    r = sh(cmd); j['bc'] = o; return r
def load_known():
    k = []
    fn = V + '/known_findings.jsonl'
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l and not l.startswith('#'): k.append(json.loads(l))
    return k
def run_jobs(jobs, wd, deadline, known):
    pool = wd + '/pool'
    with open(pool, 'wb') as f: f.write(struct.pack('iii', CPUS, 0, 0) + b'\0' * 4084)
    res = {}; threads = []
    def one(j):
        t0 = time.time()
        r = compile_job(j, wd)
        if r.returncode: res[j['id']] = {'err': 'harness does not compile against the current tree:\n' + r.stdout[-1500:]}; return
        out = wd + '/out-' + j['id']; os.makedirs(out)
        cmd = [B + '/vpsym', '--model', B + '/rt.bc', '--out', out, '--pool', pool] + shlex.split(j.get('opts', ''))
        for k in known: cmd += ['--known', k]
        cmd.append(j['bc'])
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            o, _ = p.communicate(timeout=max(5, deadline - time.time())); rc = p.returncode
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.communicate(); rc = -99; o = 'time limit reached'
        parts = [json.load(open(x)) for x in glob.glob(out + '/part-*.json')]
        res[j['id']] = {'rc': rc, 'out': o[-1500:], 'parts': parts, 'wall': time.time() - t0}
    sem = threading.Semaphore(CPUS * 2)
    def guarded(j):
        with sem:
            try: one(j)
            except Exception as e: res[j['id']] = {'err': repr(e)}
    for j in jobs:
        t = threading.Thread(target=guarded, args=(j,)); t.start(); threads.append(t)
    for t in threads: t.join()
    return res
SUMK = ['paths', 'insts', 'forks', 'sleep_pruned', 'infeasible', 'sched_branches', 'transitions', 'asserts', 'asserts_solver', 'queries', 'z3', 'cache', 'sat', 'unsat', 'solver_s']
def replay_native(j, v, wd, tag):
    """Compile the harness natively with sanitizers and run it on the counterexample's inputs."""
    if v['trace'] or j.get('replay') == 'no': return 'concrete schedule only (multi-threaded or environment-modelled): the trace lists the scheduling decisions to follow'
    fn = '%s/%s.inputs' % (wd, tag)
    with open(fn, 'w') as f:
        for r in v['inputs']:
            bs = b''
            for w, hx in r['v']: bs += int(hx, 16).to_bytes((w + 7) // 8, 'little')
            f.write(r['name'] + '\t' + bs.hex() + '\n')
    exe = '%s/%s.exe' % (wd, tag)
    for cc in ('g++', 'clang++'):
        r = sh([cc, '-std=c++14', '-O1', '-g', '-w', '-pthread', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] + shlex.split(j.get('flags', '')) + incs(j) + [j['file'], V + '/model/native.cpp', '-o', exe])
        if r.returncode == 0: break
    if r.returncode: return 'not replayed natively (native build failed: %s)' % r.stdout[-300:]
    try: r = sh([exe], env=dict(os.environ, VP_REPLAY=fn, ASAN_OPTIONS='detect_leaks=%d' % (0), UBSAN_OPTIONS='print_stacktrace=1'), timeout=60)
    except subprocess.TimeoutExpired: return 'reproduced natively: the run does not terminate'
    if r.returncode == 0: return 'native run finished without a visible failure'
    if r.returncode == 77: return 'native run did not meet the assumptions'
    return 'reproduced natively (exit %d): %s' % (r.returncode, r.stdout[-1200:])
def check(pid, tier):
    t0 = time.time(); ensure_engine()
    jobs = [j for j in parse_jobs(pid) if tier == 'thorough' and j['tier'] in ('both', 'thorough') or tier == 'quick' and j['tier'] in ('both', 'quick')]
    if not jobs: log('no jobs'); return 2
    wd = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    limit = float(os.environ.get('VP_LIMIT', '780' if tier == 'quick' else '6000'))
    known = [k for k in load_known() if k['property'] == pid and k['status'] == 'known']
    try:
        res = run_jobs(jobs, wd, t0 + limit, [k['match'] for k in known])
        viol = []; incon = []; tot = {k: 0 for k in SUMK}; fns = {}; lines = {}; jr = []; seen_known = {}
        maxq = 0
        for j in jobs:
            r = res[j['id']]
            if 'err' in r: incon.append('%s: %s' % (j['id'], r['err'])); continue
            s = {k: sum(p[k] for p in r['parts']) for k in SUMK}
            for k in SUMK: tot[k] += s[k]
            exp = set(); hit = set(); errs = []
            vs = []
            for p in r['parts']:
                exp |= set(p['expected']); hit |= set(p['witness']); errs += p['errors']; vs += p['violations']; maxq = max(maxq, p['max_query_s'])
                for f, x in p['functions'].items(): fns.setdefault(f, set()).update(x)
                for f, x in p['lines'].items(): lines.setdefault(f, set()).update(x)
            real = []
            for v in vs:
                m = [k for k in known if k['match'] in v['msg']]
                if m: seen_known.setdefault(m[0]['match'], (m[0], v))
                else: real.append(v)
            for v in real: viol.append((j, v))
            r['real'] = bool(real)
            if not real:
                if r['rc'] == -99: incon.append('%s: time limit reached before the exploration finished' % j['id'])
                elif r['rc'] != 0: incon.append('%s: engine exit %s: %s' % (j['id'], r['rc'], r['out']))
                for e in errs[:3]: incon.append('%s: engine: %s' % (j['id'], e))
                if not r['parts']: incon.append('%s: no result' % j['id'])
            j['missing'] = sorted(exp - hit) if not errs and r['rc'] == 0 and not real else []
            jr.append({'job': j['id'], 'bounds': j.get('desc', ''), 'flags': j.get('flags', ''), 'opts': j.get('opts', ''), 'wall_s': round(r['wall'], 2), 'witnesses_reached': sorted(hit), **{k: (round(s[k], 2) if isinstance(s[k], float) else s[k]) for k in SUMK}})
        if not viol:
            for j in jobs:
                for w in j.get('missing', []):
                    viol.append((j, {'msg': 'an outcome that must be possible is unreachable: ' + w, 'stack': '', 'inputs': [], 'trace': []}))
        for k, v in seen_known.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        rc = 0
        vout = []
        if viol:
            rc = 1; rd = B + '/replay'; os.makedirs(rd, exist_ok=True); done = set()
            for n, (j, v) in enumerate(viol):
                if v['msg'] in done or len(done) >= 5: continue
                done.add(v['msg'])
                how = replay_native(j, v, wd, 'r%d' % n) if v['stack'] else 'exhaustive exploration never reaches it'
                path = '%s/%s-%d.json' % (rd, pid, len(done))
                json.dump({'property': pid, 'job': j['id'], 'harness': j['file'], 'flags': j.get('flags', ''), 'what': v['msg'], 'stack': v['stack'].split('\n'), 'inputs': v['inputs'], 'schedule': v['trace'], 'replay': how}, open(path, 'w'), indent=1)
                print('VIOLATION property=%s replay=%s' % (pid, path)); print('  job %s: %s' % (j['id'], v['msg']))
                for l in v['stack'].split('\n')[:8]: print('   ', l[:200])
                print('   inputs:', ', '.join('%s=%s' % (i['name'], '.'.join(x[1] for x in i['v'])) for i in v['inputs'])[:400]); print('   replay:', how[:600])
                vout.append({'what': v['msg'], 'job': j['id'], 'replay': path})
        elif incon:
            rc = 2
            for x in incon: print('INCONCLUSIVE %s: %s' % (pid, x))
        os.makedirs(V + '/evidence', exist_ok=True)
        ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
              'coverage': {'states': tot['paths'] + tot['sleep_pruned'] + tot['infeasible'], 'transitions': max(1, tot['transitions'] + tot['forks']), 'traces_validated_against_impl': tot['paths'],
                           'samples': [{'job': x['job'], 'bounds': x['bounds'], 'paths': x['paths'], 'asserts': x['asserts']} for x in jr],
                           'symbolic_paths': tot['paths'], 'instructions_executed': tot['insts'], 'scheduling_transitions': tot['transitions'], 'assertions_checked': tot['asserts'], 'assertions_decided_by_solver': tot['asserts_solver'],
                           'solver': {'queries': tot['queries'], 'z3_calls': tot['z3'], 'cache_hits': tot['cache'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'time_s': round(tot['solver_s'], 2), 'max_query_s': round(maxq, 2)},
                           'functions_encoded': {f: sorted(x)[:80] for f, x in sorted(fns.items())}, 'source_lines_encoded': {f: len(x) for f, x in sorted(lines.items())}, 'jobs': jr, 'inconclusive': incon},
              'assumptions': ['sequentially consistent interleavings plus happens-before data race detection (no weak-memory reordering)', 'runtime library model /verif/model (libstdc++.so / libc / pthread parts)', 'bounds stated per job'],
              'wall_s': round(time.time() - t0, 2), 'violations': len(vout), 'violation_details': vout}
        json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
        print('%s %s: %s in %.1fs (%d jobs, %d paths, %d assertions, %d z3 calls, solver %.1fs)' % (pid, tier, ['held', 'VIOLATED', 'no answer'][rc], time.time() - t0, len(jobs), tot['paths'], tot['asserts'], tot['z3'], tot['solver_s']))
        if os.environ.get('VP_TIMES'):
            for x in sorted(jr, key=lambda x: -x['wall_s']): print('   %-40s %7.1fs paths %d insts %d z3 %d' % (x['job'], x['wall_s'], x['paths'], x['insts'], x['z3']))
        return rc
    finally: shutil.rmtree(wd, ignore_errors=True)
def main():
    a = sys.argv[1:]
    if a[0] == 'setup': ensure_engine(); print('ready'); return 0
    if a[0] == 'check': return check(a[1], a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    raise SystemExit(__doc__)
sys.exit(main())
