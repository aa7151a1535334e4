import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
SYMIR = os.path.join(BUILD, 'engine', 'release', 'symir')
CORES = 8
VENV_RUST = 'stable-x86_64-unknown-linux-gnu'


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC'):
            del e[k]
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['RUSTUP_TOOLCHAIN'] = VENV_RUST
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    if extra:
        e.update(extra)
    return e


class Broken(Exception):
    pass


def run(cmd, cwd, extra=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if p.returncode != 0:
        raise Broken('%s failed:\n%s' % (' '.join(cmd[:6]), p.stdout[-3000:]))
    return p.stdout


def build_engine():
    run(['cargo', 'build', '--release', '--offline', '--locked'], os.path.join(VERIF, 'engine'),
        {'CARGO_TARGET_DIR': os.path.join(BUILD, 'engine')})


def build_ir(feature, profile):
    d = os.path.join(BUILD, 'ir-%s-%s' % (feature, profile))
    run(['cargo', 'rustc', '--offline', '--locked', '--lib', '--profile', profile, '--features', feature,
         '--crate-type', 'cdylib', '--', '--emit=llvm-ir'], os.path.join(VERIF, 'harness'),
        {'CARGO_TARGET_DIR': d, 'RUSTFLAGS': '-C no-vectorize-loops -C no-vectorize-slp'})
    src = os.path.join(d, profile, 'deps', 'harness.ll')
    if not os.path.exists(src):
        raise Broken('no LLVM IR was produced')
    return src


def build_native(feature, profile):
    d = os.path.join(BUILD, 'native-%s' % feature)
    if profile == 'dev':
        d += '-dev'
    cmd = ['cargo', 'build', '--offline', '--locked', '--bin', 'replay', '--features', feature]
    if profile == 'release':
        cmd.append('--release')
    run(cmd, os.path.join(VERIF, 'harness'), {'CARGO_TARGET_DIR': d})
    return os.path.join(d, 'release' if profile == 'release' else 'debug', 'replay')


def tape_text(job, rec, seed):
    out = ['entry %s' % job['entry'], 'params %s' % ' '.join(str(x) for x in job['params']), 'seed %d' % seed]
    for n, l in zip(('u8', 'u16', 'u32', 'u64'), rec['tape']):
        out.append(' '.join([n] + [str(x) for x in l]))
    for s, i, v in rec['prg']:
        out.append('prg %s %d %d' % (' '.join(str(x) for x in s), i, v))
    return '\n'.join(out) + '\n'


def native(binary, path, timeout=60):
    """-> (outcome, [(id, value)])"""
    scratch = tempfile.mkdtemp(prefix='replay-')
    try:
        e = {'PATH': '/usr/bin:/bin', 'RUST_BACKTRACE': '0', 'SYM_DIR': scratch}
        p = subprocess.run([binary, path], cwd=scratch, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        out = p.stdout.decode('utf8', 'replace')
        rc = p.returncode
        err = p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        out, rc, err = (x.stdout or b'').decode('utf8', 'replace'), 'timeout', ''
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    obs = []
    what = ''
    for l in out.splitlines():
        w = l.split()
        if not w:
            continue
        if w[0] == 'OBS':
            obs.append((int(w[1]), int(w[2])))
        elif w[0] in ('FAIL', 'PANIC', 'ASSUME', 'DONE'):
            what = l.strip()
    if rc == 'timeout':
        return ('HANG no answer within %d s' % timeout, obs)
    if not what:
        what = 'CRASH exit %s %s' % (rc, err.strip()[-200:])
    if what.startswith('PANIC') and rc == 0:
        what = 'ALLOWED ' + what
    return (what, obs)


def run_job(job, ir, tmp, n, seed, deadline):
    left = max(5, min(job['time'], int(deadline - time.time())))
    out = os.path.join(tmp, 'job%d.json' % n)
    d = os.path.join(tmp, 'job%d' % n)
    os.makedirs(d, exist_ok=True)
    cmd = [SYMIR, ir, job['entry'], '--params', ','.join(str(x) for x in job['params']), '--out', out,
           '--root', REPO, '--time', str(left), '--seed', str(seed), '--finals', str(job['finals']),
           '--tmp', d]
    for k, v in job['opts'].items():
        cmd += ['--' + k, str(v)]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left + 25,
                           env=env({'RUST_BACKTRACE': '0'}), text=True)
        log = p.stdout
    except subprocess.TimeoutExpired:
        log = 'timeout'
    r = {'job': job, 'wall': time.time() - t, 'log': log[-500:]}
    try:
        r['res'] = json.load(open(out))
        os.remove(out)
    except Exception:
        r['res'] = None
    shutil.rmtree(d, ignore_errors=True)
    return r


def known_findings(pid):
    """lines `known: property=<id> entry=<entry> where=<substring of the report> -- text`"""
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) where=(\S+) -- (.*)', l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def main(argv):
    import jobs
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    spec = jobs.PROPS[pid]
    todo = [j for j in spec['jobs'] if tier == 'thorough' or j['tier'] == 'quick']
    if os.environ.get('JOB'):
        todo = [j for j in todo if re.search(os.environ['JOB'], '%s(%s)' % (j['entry'], ','.join(map(str, j['params']))))]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='symir-%s-' % pid)
    ev = os.path.join(VERIF, 'evidence', pid + '.json')
    if os.path.exists(ev):
        os.remove(ev)
    try:
        return go(pid, tier, seed, t0, spec, todo, tmp, ev)
    except Broken as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def go(pid, tier, seed, t0, spec, todo, tmp, ev):
    feature = spec['feature']
    # the quick check has to answer in time: what is not decided by then is reported as not explored
    deadline = t0 + (740 if tier == 'quick' else 10 ** 6)
    profiles = sorted({j['profile'] for j in todo})
    irs, nat, errors = {}, {}, []
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    ex = cf.ThreadPoolExecutor(CORES + 6)
    fe = ex.submit(build_engine)
    fi = {p: ex.submit(build_ir, feature, p) for p in profiles}
    # the native build that has the semantics of the symbolic run: ir = release, irc = dev
    want = sorted({'release' if j['profile'] == 'ir' else 'dev' for j in todo})
    fn = {p: ex.submit(build_native, feature, p) for p in want}
    fe.result()
    for p, f in fi.items():
        irs[p] = f.result()
    t_build = time.time() - t0
    # longest first
    todo = sorted(todo, key=lambda j: -j['cost'])
    pool = cf.ThreadPoolExecutor(CORES)
    futs = [pool.submit(run_job, j, irs[j['profile']], tmp, n, seed, deadline) for n, j in enumerate(todo)]
    for p, f in fn.items():
        nat[p] = f.result()
    fcntl.flock(lock, fcntl.LOCK_UN)

    tot = {}
    enc = {}
    asserts = {}
    viol, inconcl, known_hit = [], [], []
    validated = 0
    samples = []
    njobs = open_jobs = 0
    kf = known_findings(pid)
    repdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(repdir, exist_ok=True)
    seen_final = 0
    for f in futs:
        r = f.result()
        job, res = r['job'], r['res']
        name = '%s(%s)' % (job['entry'], ','.join(str(x) for x in job['params']))
        if job['profile'] != 'ir':
            name += ' [%s]' % job['profile']
        if res is None:
            inconcl.append('%s: the engine failed: %s' % (name, r['log']))
            continue
        njobs += 1
        prof = 'release' if job['profile'] == 'ir' else 'dev'
        if os.environ.get('VERBOSE'):
            s = res['stats']
            print('%-40s %6.1fs paths %d queries %d viol %d inc %d %s' % (
                name, r['wall'], s['paths'], s['queries'], len(res['violations']), len(res['inconclusive']),
                res['error'][:200]), flush=True)
        for k, v in res['stats'].items():
            if isinstance(v, (int, float)) and k not in ('wall_s', 'functions', 'terms'):
                tot[k] = tot.get(k, 0) + v
        for k, v in res['encoded'].items():
            enc.setdefault(k, set()).update(v)
        for k, v in res['asserts'].items():
            asserts['%s#%s' % (job['entry'], k)] = asserts.get('%s#%s' % (job['entry'], k), 0) + v
        nv = 0
        for v in res['violations']:
            text = tape_text(job, v, seed)
            if v['kind'] == 'never':
                text += 'never %s\n' % v['msg']
            h = hashlib.sha256((pid + text).encode()).hexdigest()[:12]
            path = os.path.join(repdir, '%s-%s.replay' % (pid, h))
            with open(path, 'w') as o:
                o.write('# property %s: %s %s\n# at %s\n# replay: %s/tools/replay %s %s\n' % (
                    pid, v['kind'], v['msg'], v['loc'], VERIF, feature, path))
                o.write(text)
            what, _ = native(nat[prof], path, 30)
            if what.startswith(('FAIL', 'PANIC', 'CRASH', 'HANG')):
                nv += 1
                k = [x for x in kf if x[0] == job['entry'] and x[1] in '%s %s %s' % (v['msg'], v['loc'], what)]
                if k:
                    known_hit.append(k[0])
                else:
                    viol.append((name, v, what, path))
            else:
                errors.append('%s: counterexample (%s %s at %s) does not reproduce natively: %s, see %s' % (
                    name, v['kind'], v['msg'], v['loc'], what, path))
        if res['error']:
            if not res['violations']:
                inconcl.append('%s: %s' % (name, res['error'][:400]))
        for i in res['inconclusive']:
            inconcl.append('%s: %s' % (name, str(i)[:300]))
        for i in res['partial']:
            inconcl.append('%s: %s' % (name, str(i)[:300]))
        missed = False
        if not res['violations'] and not res['error']:
            for c in job['covers']:
                if c not in res['covers']:
                    inconcl.append('%s: point %s of the harness was not reached' % (name, c))
                    missed = True
        open_jobs += bool(not res['violations'] and (res['error'] or res['inconclusive'] or missed))
        # the translation is validated against the native build
        for k, fin in enumerate(res['finals']):
            seen_final += 1
            path = os.path.join(tmp, 'final-%d.replay' % seen_final)
            with open(path, 'w') as o:
                o.write(tape_text(job, fin, seed))
            what, obs = native(nat[prof], path)
            os.remove(path)
            wantobs = [tuple(x) for x in fin['obs']]
            if (what == 'DONE' or what.startswith('ALLOWED')) and obs == wantobs:
                validated += 1
                if len(samples) < 6 and k == 0:
                    samples.append({'harness': name, 'input': {n: t[:24] for n, t in zip(
                        ('u8', 'u16', 'u32', 'u64'), fin['tape']) if t}, 'observed': wantobs[:12]})
            elif not res['violations'] and not viol:
                errors.append('%s: native run of a path\'s input differs: %s, %s instead of %s' % (
                    name, what, [x for x in obs if x not in wantobs][:4], [x for x in wantobs if x not in obs][:4]))
    rc = 0
    for name, v, what, path in viol:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: %s %s; native run: %s; at %s' % (name, v['kind'], v['msg'], what, v['loc'][:300]))
        rc = 1
    for k in {x for x in known_hit}:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    if rc == 0 and (errors or 4 * (njobs - open_jobs) < len(todo)):
        rc = 2
    for e in inconcl[:20]:
        print('NOT-DECIDED property=%s %s' % (pid, e))
    for e in errors[:20]:
        print('ERROR property=%s %s' % (pid, e))
    ours = {k: v for k, v in enc.items() if REPO in k or k.endswith(('[src/api.rs]', '[src/utils.rs]'))}
    fl = lambda d: {k: (('%d-%d, %d lines' % (min(v), max(v), len(v))) if v else '') for k, v in sorted(d.items())}
    evid = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': int(tot.get('paths', 0) + tot.get('forks', 0) + tot.get('merges', 0)),
            'transitions': int(tot.get('steps', 0)),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'harness': todo[0]['entry'] if todo else ''}],
            'harness_runs': njobs,
            'harnesses': sorted({'%s(%s)' % (j['entry'], ','.join(map(str, j['params']))) for j in todo})[:200],
            'bounds': spec['bounds'],
            'outside_the_bounds': spec.get('outside', ''),
            'paths': int(tot.get('paths', 0)),
            'merges': int(tot.get('merges', 0)),
            'symbolic_variables': int(tot.get('vars', 0)),
            'assertions': asserts,
            'assertions_decided_by_solver': int(tot.get('asserts_solver', 0)),
            'assertions_decided_by_normalisation': int(tot.get('asserts_norm', 0)),
            'queries': int(tot.get('queries', 0)), 'sat': int(tot.get('sat', 0)), 'unsat': int(tot.get('unsat', 0)),
            'unknown': int(tot.get('unknown', 0)), 'solver_s': round(tot.get('solver_s', 0), 2),
            'inconclusive': len(inconcl),
            'not_decided': [x[:200] for x in inconcl[:20]],
            'functions_encoded_of_repo': fl(ours) if ours else fl(enc),
            'functions_encoded_in_total': len(enc),
            'build_s': round(t_build, 1),
        },
        'assumptions': spec['assumptions'],
        'wall_s': round(time.time() - t0, 1),
        'violations': len(viol),
    }
    with open(ev, 'w') as o:
        json.dump(evid, o, indent=1)
    print('%s %s %s: %d harness runs, %d paths, %d asserts, %d queries, %d native traces, %.0f s' % (
        'held' if rc == 0 else ('violated' if rc == 1 else 'no verdict'), pid, tier, njobs, tot.get('paths', 0),
        sum(asserts.values()), tot.get('queries', 0), validated, time.time() - t0))
    return rc
