"""Decide one property:  python3-vt engine/check.py C07 [--only pat] [--keep] [--bless] [-v]

 1. builds the harness crate (path dependency on /repo) to LLVM IR in two profiles (release, and with overflow
    checks and debug assertions) and natively with AddressSanitizer in the same two profiles;
 2. executes every harness symbolically (exec.py), one process per harness and profile;
 3. replays every counterexample, and a sample of passing paths, on the native builds;
 4. writes /verif/evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
exit 0: held on everything explored; 1: violation reproduced on the real code; 2: no verdict.
"""
import sys, os, re, json, time, glob, fcntl, subprocess, multiprocessing as mp, shutil, signal, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import llir

REPO = '/repo'
HARN = os.path.join(VERIF, 'harness')
TARGET = os.path.join(HARN, 'target')
CRATES = ('vfh', 'householder', 'num', 'num_complex', 'num_traits', 'num_integer', 'cauchy', 'rand', 'rand_distr',
          'rand_core', 'matrixmultiply')
PROFILES = {'rel': ('release', 'nrel'), 'dbg': ('dev2', 'ndev')}
PNAME = {'rel': 'release', 'dbg': 'overflow checks + debug assertions'}
T0 = time.time()
NPROC = len(os.sched_getaffinity(0))


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------- build
def build_cmds(prop, deep):
    feat = [prop.lower()] + (['deep'] if deep else [])
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    env.pop('RUSTFLAGS', None)
    out = []
    for p, (ir, nat) in PROFILES.items():
        e = dict(env)
        e['RUSTFLAGS'] = '--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C debuginfo=line-tables-only'
        e['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'ir-' + p)
        out.append(('ir-' + p, ['cargo', 'build', '--lib', '--profile', ir, '--offline', '--features',
                                ','.join(feat)], e))
        e = dict(env)
        e['RUSTC_BOOTSTRAP'] = '1'
        e['RUSTFLAGS'] = '-Zsanitizer=address'
        e['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'nat-' + p)
        out.append(('nat-' + p, ['cargo', 'build', '--bin', 'vfh-replay', '--profile', nat, '--offline', '--features',
                                 ','.join(feat + ['native', 'asan']), '--target', 'x86_64-unknown-linux-gnu'], e))
    return out


def ir_dir(p):
    return os.path.join(TARGET, 'ir-' + p, PROFILES[p][0], 'deps')


def nat_built(p):
    return os.path.join(TARGET, 'nat-' + p, 'x86_64-unknown-linux-gnu', PROFILES[p][1], 'vfh-replay')


BIN = {}


def nat_bin(p):
    return BIN.get(p) or nat_built(p)


def build(prop, deep):
    # householder and the harness crate are always rebuilt from the current tree
    for pat in ('ir-*/*/.fingerprint/', 'nat-*/x86_64-unknown-linux-gnu/*/.fingerprint/'):
        for c in ('householder-*', 'vfh-*'):
            for d in glob.glob(os.path.join(TARGET, pat, c)):
                shutil.rmtree(d, ignore_errors=True)
    for c in ('householder-*.ll', 'vfh-*.ll'):
        for f in glob.glob(os.path.join(TARGET, 'ir-*', '*', 'deps', c)):
            os.remove(f)
    procs = []
    for name, cmd, env in build_cmds(prop, deep):
        os.makedirs(env['CARGO_TARGET_DIR'], exist_ok=True)
        lf = open(os.path.join(TARGET, name + '.log'), 'wb')
        procs.append((name, subprocess.Popen(cmd, cwd=HARN, env=env, stdout=lf, stderr=subprocess.STDOUT,
                                             stdin=subprocess.DEVNULL)))
    bad = []
    for name, p in procs:
        if p.wait() != 0:
            bad.append(name)
    if bad:
        for b in bad:
            with open(os.path.join(TARGET, b + '.log'), errors='replace') as f:
                t = f.read()
                k = t.find('error')
                log('build failed:', b, '\n' + t[max(k, 0):][:3000])
                break
        return False
    return True


def load(p):
    mod = llir.Module()
    d = ir_dir(p)
    for c in CRATES:
        fs = sorted(glob.glob(os.path.join(d, c + '-*.ll')), key=os.path.getmtime)
        for f in fs[-1:]:
            mod.load(f)
    return mod


# ---------------------------------------------------------------------------------------------- jobs
MODS = {}


def run_job(p, h, opts, conn):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        import exec as ex
        sys.setrecursionlimit(20000)
        t = time.time()
        o = dict(opts)
        o['deadline'] = time.time() + o['budget']
        e = ex.Engine(MODS[p], h, o)
        e.run(h)
        s = e.solver.stats
        r = {'ok': True, 'viol': e.viol, 'inc': e.inconclusive[:20], 'ninc': len(e.inconclusive), 'paths': e.paths,
             'npaths': e.npaths, 'steps': e.nsteps, 'witness': e.witness, 'asserts': e.asserts,
             'stubs': sorted(e.stubs), 'bounds': e.bound_notes(), 'funcs': sorted(e.funcs),
             'q': [s.queries, s.cached, s.syntactic, s.sat, s.unsat, s.unknown, e.fp_queries],
             'st': s.time + e.fp_time, 'wall': time.time() - t, 'slow': s.slow[:5], 'lines': e.covered()}
    except BaseException as x:
        r = {'ok': False, 'error': repr(x)[:300] + '\n' + traceback.format_exc()[-1500:]}
    conn.send(r)
    conn.close()
    os._exit(0)


def run_all(jobs, deadline, verbose, confirmed=None):
    """jobs: list of (key, profile, harness, opts) -> {key: result}

    once `confirmed(key, result)` says that a violation was reproduced on the real code, nothing new is started"""
    stop_at = None
    ctx = mp.get_context('fork')
    todo = list(jobs)
    live = {}
    res = {}
    while todo or live:
        if stop_at is not None:
            todo = []
            if time.time() > stop_at:
                for pr, a, hard in live.values():
                    pr.kill()
                return res
        while todo and len(live) < NPROC:
            key, p, h, opts = todo.pop(0)
            left = deadline - time.time()
            o = dict(opts)
            o['budget'] = max(2.0, min(o['budget'], left))
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=run_job, args=(p, h, o, b))
            pr.start()
            b.close()
            live[key] = (pr, a, time.time() + o['budget'] * 1.3 + 25)
        mp.connection.wait([x[1] for x in live.values()], timeout=1.0)
        for key, (pr, a, hard) in list(live.items()):
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = {'ok': False, 'error': 'worker died'}
            elif time.time() > hard:
                pr.kill()
                r = {'ok': False, 'error': 'hard time limit'}
            elif not pr.is_alive():
                r = {'ok': False, 'error': 'worker died'}
            if r is not None:
                res[key] = r
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                a.close()
                del live[key]
                if confirmed and stop_at is None and r['ok'] and r['viol'] and confirmed(key, r):
                    stop_at = time.time() + 20
                if verbose:
                    if r['ok']:
                        log('%-34s %5.1fs paths=%s viol=%d inc=%d q=%s st=%.1f' % (
                            key, r['wall'], r['paths'], len(r['viol']), r['ninc'], r['q'], r['st']))
                        for x in r['inc'][:6]:
                            log('     I', x)
                        for x in r['viol'][:6]:
                            log('     V', x['kind'], x['msg'], x['inputs'])
                        if verbose > 1:
                            for x in r['slow']:
                                log('     slow', x)
                    else:
                        log('%-34s FAILED %s' % (key, r['error']))
    return res


# ---------------------------------------------------------------------------------------------- replay
def input_text(inp):
    out = []
    for i in inp['ins']:
        if i[0] in ('any', 'pick'):
            out.append('%s %d' % (i[0], i[1]))
        elif i[0] == 'buf':
            out.append('buf %s %d %d' % (i[1], i[2], i[3]))
    for c in inp['cells']:
        if c[0] == 'cell':
            out.append('cell %d %d %d %d' % (c[1], c[2], c[3], c[4]))
        else:
            out.append('fvar %d %d %d' % (c[1], c[2], c[3]))
    return '\n'.join(out) + '\n'


def replay(p, h, path):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0'
    env['MATMUL_NUM_THREADS'] = '1'
    try:
        r = subprocess.run([nat_bin(p), h, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
    except subprocess.TimeoutExpired:
        return {'outcome': 'timeout', 'eqs': [], 'done': None, 'text': ''}
    txt = r.stdout.decode(errors='replace')
    err = r.stderr.decode(errors='replace')
    oc = re.findall(r'^OUTCOME (.*)$', txt, re.M)
    dn = re.findall(r'^DONE (\d+)$', txt, re.M)
    if oc:
        o = oc[-1]
    elif 'AddressSanitizer' in err and 'allocation-size-too-big' not in err and 'out of memory' not in err:
        o = 'crash asan ' + (re.findall(r'AddressSanitizer: (\S+)', err) or ['?'])[0]
    elif r.returncode < 0 and -r.returncode in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL):
        o = 'crash signal %d' % -r.returncode
    else:
        o = 'abort rc=%d' % r.returncode
    eqs = [(k, int(a), int(b)) for k, a, b in re.findall(r'^EQ (\S+) (\d+) (\d+)$', txt, re.M)]
    return {'outcome': o, 'eqs': eqs, 'done': int(dn[-1]) if dn else None,
            'text': txt[-2000:] + err[-3000:]}


def bad_outcome(o):
    return o.startswith('assert ') or o == 'unexpected-panic' or o.startswith('crash')


def nan(b, w):
    return (b & ((1 << (w - 1)) - 1)) > (0x7ff << 52 if w == 64 else 0xff << 23)


def same_witness(w, r):
    """engine prediction against the native run; None when it agrees"""
    if r['outcome'] != w['outcome']:
        return 'outcome %s, expected %s' % (r['outcome'], w['outcome'])
    if r['done'] != w['key'][1]:
        return 'done %s, expected %s' % (r['done'], w['key'][1])
    for k, (e, n) in enumerate(zip(w['eqs'], r['eqs'])):
        if e[0] != n[0]:
            return 'comparison %d is %s, expected %s' % (k, n[0], e[0])
        wd = int(e[0][-2:])
        for q in (1, 2):
            if e[q] is None or (q == 1 and e[0].startswith('close')):
                continue
            if e[q] != n[q] and not (nan(e[q], wd) and nan(n[q], wd)):
                return 'comparison %d: %s value %x, expected %x' % (k, 'left' if q == 1 else 'right', n[q], e[q])
    return None


# ---------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    f = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r'finding: property=(\S+) harness=(\S+) kind=(\S+) match="([^"]*)" (.*)', ln.strip())
            if m and m.group(1) == prop:
                out.append({'harness': m.group(2), 'kind': m.group(3), 'match': m.group(4), 'what': m.group(5)})
    return out


def is_known(kf, h, v):
    for k in kf:
        if re.fullmatch(k['harness'], h) and k['kind'] == v['kind'] and k['match'] == v['msg']:
            return k
    return None


# ---------------------------------------------------------------------------------------------- main
def strip_generics(n):
    """a::b<..>::c<..> -> a::b::c (an impl block's '<T as Tr>' head is kept as '<impl>')"""
    out, d = [], 0
    for i, c in enumerate(n):
        if c == '<':
            d += 1
        elif c == '>' and (i == 0 or n[i - 1] != '-'):
            d -= 1
            if d == 0 and not out:
                out.append('<impl>')
        elif d == 0:
            out.append(c)
    return ''.join(out)[:160].replace('::::', '::')


def fn_list(funcs):
    """one line per source function that was executed symbolically, monomorphised copies counted"""
    g = {}
    for n, f, l in funcs:
        k = (strip_generics(n), f, l)
        g[k] = g.get(k, 0) + 1
    r = ['%s (%s:%s)%s' % (k + (' x%d' % v if v > 1 else '',)) for k, v in sorted(g.items(), key=str)]
    mine = [x for x in r if 'repo' in x or '/src/' in x]
    return r if len(r) <= 3000 else mine[:2500] + ['... %d more' % (len(r) - len(mine[:2500]))]


def main():
    args = sys.argv[1:]
    if args[:1] == ['setup']:
        import exec as ex, z3
        subprocess.run(['cargo', '--version'], check=True)
        print('z3', z3.get_version_string())
        return
    prop = args[0]
    only = args[args.index('--only') + 1] if '--only' in args else None
    profs = args[args.index('--profile') + 1].split(',') if '--profile' in args else list(PROFILES)
    verbose = 2 if '-vv' in args else 1 if '-v' in args else 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    deep = tier == 'thorough'
    limit = 3300 if deep else 840
    deadline = T0 + limit
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(evd, 'replay', prop + '-*')):
        os.remove(f)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {}, 'wall_s': 0,
          'violations': 0, 'assumptions': []}

    def finish(code, note=None):
        ev['wall_s'] = round(time.time() - T0, 2)
        if note:
            ev['coverage']['note'] = note
        with open(os.path.join(evd, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if note:
            log(note)
        sys.stdout.flush()
        sys.exit(code)

    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if '--nobuild' not in args and not build(prop, deep):
        ev['coverage'] = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        finish(2, 'the harness crate does not build against the current tree')
    build_s = time.time() - T0
    log('built')
    for p in profs:
        MODS[p] = load(p)
        b = os.path.join(TARGET, 'bin', '%s-%s' % (prop, p))
        os.makedirs(os.path.dirname(b), exist_ok=True)
        shutil.copy2(nat_built(p), b + '.new')
        os.replace(b + '.new', b)
        BIN[p] = b
    lock.close()
    pre = 'h_' + prop.lower() + '_'
    names = sorted({f for p in profs for f in MODS[p].funcs if f.startswith(pre)})
    if only:
        names = [n for n in names if re.search(only, n)]
    log('loaded, %d harnesses' % len(names))
    cfg = {}
    cf = os.path.join(HERE, 'config.json')
    if os.path.exists(cf):
        cfg = json.load(open(cf))
    left = deadline - time.time() - 90
    kf = known_findings(prop)
    base = {'timeout_ms': 8000, 'budget': min(left, 1500 if deep else 300), 'max_witness': 3, 'max_paths': 60000,
            'max_steps': 400000}
    jobs = []
    skipped = set()
    for n in names:
        for p in profs:
            if n in MODS[p].funcs:
                o = dict(base)
                for k, v in cfg.items():
                    if re.search(k, n):
                        o.update(v)
                if not deep and p not in o.pop('quick', list(PROFILES)):
                    skipped.add('%s/%s' % (n, p))
                    continue
                if any(re.fullmatch(k['harness'], n) for k in kf):
                    o['no_cut'] = True
                jobs.append(('%s/%s' % (n, p), p, n, o))
    # longest first, from the previous blessing
    exp = {}
    ef = os.path.join(HERE, 'expect', prop + '.json')
    if os.path.exists(ef):
        exp = json.load(open(ef))
    jobs.sort(key=lambda j: -exp.get(j[0], {}).get('wall', 5))
    soft = deadline - 120
    byk = {key: (p, h) for key, p, h, o in jobs}
    stopped = []

    def confirmed(key, r):
        p, h = byk[key]
        for v in r['viol']:
            if is_known(kf, h, v):
                continue
            path = os.path.join(TARGET, '%s-%s-%s-c.in' % (prop, h, p))
            with open(path, 'w') as f:
                f.write(input_text(v['inputs']))
            rr = replay(p, h, path)
            os.remove(path)
            if bad_outcome(rr['outcome']):
                stopped.append(key)
                return True
        return False
    res = run_all(jobs, soft, verbose, None if '--all' in args or '--bless' in args else confirmed)
    if stopped:
        log('violation confirmed in %s: %d of %d harness runs done' % (stopped[0], len(res), len(jobs)))
        jobs = [j for j in jobs if j[0] in res]
    # inconclusive: once more over a smaller domain
    again = []
    for key, p, h, o in jobs:
        r = res[key]
        if (not r['ok'] or r['ninc']) and not stopped:
            again.append((key, p, h, o))
    reduced = {}
    for small in ('bound', 'pick'):
        if not again or time.time() > deadline - 60:
            break
        j2 = []
        for key, p, h, o in again:
            o2 = dict(o)
            o2.update(small=small, budget=min(o['budget'], 120), no_witness=True)
            j2.append((key, p, h, o2))
        r2 = run_all(j2, deadline - 30, verbose, None)
        again2 = []
        for key, p, h, o in again:
            r = r2[key]
            old = res[key]
            if r['ok'] and not r['ninc']:
                if old['ok']:
                    r['viol'] = old['viol'] + r['viol']
                reduced[key] = (small, [list(x) for x in old['inc'][:3]] if old['ok'] else old['error'][:200])
                r['witness'] = old['witness'] if old['ok'] else []
                res[key] = r
            else:
                if old['ok'] and r['ok']:
                    old['viol'] = old['viol'] + r['viol']
                again2.append((key, p, h, o))
        again = again2
    # ------------------------------------------------ judge
    kf_hit = {}
    viols, unrepro, noverdict, mism = [], [], [], []
    nval = 0
    samples = []
    cov = {'harnesses': {}, 'states': 0, 'transitions': 0}
    funcs = set()
    lines = set()
    stubs = set()
    tot = [0] * 7
    stime = 0.0
    for key, p, h, o in jobs:
        r = res[key]
        if not r['ok']:
            noverdict.append('%s: %s' % (key, r['error'].strip().split('\n')[0]))
            continue
        if r['ninc'] and not any(1 for _ in r['viol']):
            noverdict.append('%s: %s' % (key, r['inc'][:2]))
        cov['states'] += r['npaths']
        cov['transitions'] += r['steps']
        funcs |= set(map(tuple, r['lines']))
        stubs |= set(r['stubs'])
        for i in range(7):
            tot[i] += r['q'][i]
        stime += r['st']
        cov['harnesses'][key] = {'paths': r['paths'], 'asserts': sum(r['asserts'].values()), 'bounds': r['bounds'],
                                 'solver_s': round(r['st'], 2), 'queries': r['q'][0], 'wall_s': round(r['wall'], 2)}
        if key in reduced:
            cov['harnesses'][key]['reduced_domain'] = {'mode': reduced[key][0], 'because': reduced[key][1]}
        done_msgs = {}
        for v in r['viol']:
            k = is_known(kf, h, v)
            if done_msgs.get((v['kind'], v['msg'])) == 'ok':
                continue
            name = '%s-%s-%s-%d' % (prop, h, p, len(glob.glob(os.path.join(evd, 'replay', '%s-%s-%s-*.in' % (prop, h, p)))))
            path = os.path.join(evd, 'replay', name + '.in')
            with open(path, 'w') as f:
                f.write(input_text(v['inputs']))
            rr = replay(p, h, path)
            if bad_outcome(rr['outcome']):
                done_msgs[(v['kind'], v['msg'])] = 'ok'
                with open(path[:-3] + '.txt', 'w') as f:
                    f.write('harness %s (%s)\n%s: %s\nnative outcome: %s\nreplay: %s %s %s\n\ninputs:\n%s\n%s' % (
                        h, PNAME[p], v['kind'], v['msg'], rr['outcome'], nat_bin(p), h, path,
                        input_text(v['inputs']), rr['text']))
                if k:
                    kf_hit[k['what']] = k
                else:
                    viols.append((key, v['kind'], v['msg'], rr['outcome'], path[:-3] + '.txt'))
            else:
                done_msgs.setdefault((v['kind'], v['msg']), '%s: %s %s: native outcome %s' % (
                    key, v['kind'], v['msg'], rr['outcome']))
                os.remove(path)
        for kk, s in done_msgs.items():
            if s != 'ok':
                unrepro.append(s)
        # validate passing paths on the real code
        for w in r['witness']:
            name = '%s-w.in' % h
            path = os.path.join(TARGET, '%s-%s-%s' % (prop, p, name))
            with open(path, 'w') as f:
                f.write(input_text(w['inputs']))
            rr = replay(p, h, path)
            if rr['outcome'] == 'toolarge' or rr['outcome'].startswith('abort'):
                os.remove(path)
                continue
            d = same_witness(w, rr)
            if d is None:
                nval += 1
                if len(samples) < 8 and w['inputs']['ins']:
                    samples.append({'harness': key, 'inputs': input_text(w['inputs']).split('\n')[:-1],
                                    'outcome': w['outcome']})
            elif bad_outcome(rr['outcome']) and not (rr['outcome'] == 'unexpected-panic' and w['outcome'] == 'panic'):
                # the real code fails on this input
                vv = {'kind': 'native', 'msg': rr['outcome']}
                k = is_known(kf, h, vv)
                np = os.path.join(evd, 'replay', '%s-%s-%s-native.txt' % (prop, h, p))
                with open(np, 'w') as f:
                    f.write('harness %s (%s)\nnative outcome: %s (%s)\n\ninputs:\n%s\n%s' % (
                        h, PNAME[p], rr['outcome'], d, input_text(w['inputs']), rr['text']))
                if not k:
                    viols.append((key, 'native', d, rr['outcome'], np))
            else:
                mism.append('%s: %s' % (key, d))
            os.remove(path)
    missing = []
    for key, e in exp.items():
        if only or key in skipped or (deep != bool(e.get('deep'))) and key not in res:
            continue
        r = res.get(key)
        if r is None:
            if stopped:
                continue
            if not only and key.split('/')[1] in profs:
                missing.append(key + ' is gone')
            continue
        if not r['ok']:
            continue
        for m in e['asserts']:
            if not r['asserts'].get(m) and key not in reduced and not r['viol']:
                missing.append('%s: never reached "%s"' % (key, m))
        for oc in e['outcomes']:
            if not r['paths'].get(oc) and not r['viol']:
                missing.append('%s: no path ends with "%s"' % (key, oc))
    if not names:
        missing.append('no harness found')
    if '--bless' in args:
        os.makedirs(os.path.join(HERE, 'expect'), exist_ok=True)
        ex2 = {} if not only else exp
        for key, p, h, o in jobs:
            r = res[key]
            if r['ok']:
                ex2[key] = {'asserts': sorted(r['asserts']), 'wall': round(r['wall'], 1),
                            'outcomes': sorted(k for k in r['paths'] if k in ('end', 'panic', 'done'))}
        json.dump(ex2, open(ef, 'w'), indent=0, sort_keys=True)
    cov.update({
        'traces_validated_against_impl': nval,
        'samples': samples,
        'functions_encoded': fn_list(funcs),
        'function_instances_encoded': len(funcs),
        'solver': {'queries': tot[0], 'answered_from_cache': tot[1], 'closed_syntactically': tot[2], 'sat': tot[3],
                   'unsat': tot[4], 'unknown': tot[5], 'floating_point_queries': tot[6],
                   'solver_time_s': round(stime, 2), 'solver': 'z3 (QF_LIA/QF_NIA/NRA/FP)'},
        'profiles': [PNAME[p] for p in profs],
        'stubs': sorted(stubs),
        'build_s': round(build_s, 1),
        'explanation': 'states = completed symbolic paths, transitions = IR instructions executed symbolically; '
                       'every path covers all values of its symbolic inputs',
    })
    ev['coverage'] = cov
    ev['violations'] = len(viols)
    ev['assumptions'] = ['rustc/LLVM -O2 IR of the current tree is what runs', 'allocation succeeds',
                         'the engine executes that IR faithfully (checked on the replayed paths)'] + \
                        (['matrixmultiply\'s kernels meet their documented contract'] if stubs else [])
    if kf:
        cov['known_findings'] = sorted(kf_hit)
    for w in sorted(kf_hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for u in unrepro:
        log('not reproduced:', u)
    for u in noverdict:
        log('no verdict:', u)
    for u in mism:
        log('engine/native mismatch:', u)
    for u in missing:
        log('coverage lost:', u)
    log('%d harness runs, %d paths, %d validated, solver %.1fs' % (len(jobs), cov['states'], nval, stime))
    if viols:
        seen = set()
        for key, kind, msg, oc, path in viols:
            if key in seen:
                continue
            seen.add(key)
            log('violation:', key, kind, msg, '| native:', oc)
            print('VIOLATION property=%s replay=%s' % (prop, path))
        finish(1)
    if unrepro or noverdict or mism or missing:
        cov['problems'] = (unrepro + noverdict + mism + missing)[:40]
        finish(2, 'no verdict')
    finish(0)


if __name__ == '__main__':
    main()
