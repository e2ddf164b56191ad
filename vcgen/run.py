"""The check of one property: proofs first, then the concrete search for a
failing input (which also cross-checks the contracts against real runs)."""
import importlib, json, os, re, signal, subprocess, sys, time, traceback
import multiprocessing as mp
from . import build

HERE = build.HERE
KNOWN = os.path.join(HERE, 'known_findings.json')
ENTRY_LIMIT = {'quick': 420, 'thorough': 700}
ALL_LIMIT = {'quick': 620, 'thorough': 7200}


def prove_entry(args):
    """one entry in its own process; returns a plain dict"""
    ir, modname, clsname, tier = args
    out = {'contract': clsname, 'obs': [], 'error': None, 'trusted': [], 'syntactic': 0, 'paths': 0, 'throws': 0}
    t0 = time.time()
    try:
        sys.setrecursionlimit(30000)
        from .llir import Module
        from .exec import Exec
        from .flat import Flat, FlatExec
        from . import solve
        C = next(c for _, c in importlib.import_module('contracts.' + modname).PROOFS if c.__name__ == clsname)
        c = C()
        out['entry'] = c.entry
        if isinstance(c, Flat):
            ex = FlatExec(Module(ir), c)
            ex.cross = tier == 'thorough'
            obs = ex.verify(c.entry)
            out['obs'] = [(o.name, o.ok, round(o.secs, 4), o.status, o.detail) for o in obs]
            out.update(trusted=sorted(ex.trusted), syntactic=0, paths=ex.paths, throws=ex.throws, hooked={}, live=ex.live or ex.throws > 0,
                       stats=dict(queries=ex.queries, time=round(ex.secs, 2)))
            out['secs'] = round(time.time() - t0, 2)
            return out
        ex = Exec(Module(ir), c)
        ex.cross = tier == 'thorough'
        obs = ex.verify(c.entry)
        out['obs'] = [(o.name, o.ok, round(o.secs, 4), o.status, o.detail) for o in obs]
        out.update(trusted=sorted(ex.trusted), syntactic=ex.syntactic, paths=ex.paths, throws=ex.throws,
                   hooked=dict(ex.hooked), stats=dict(solve.STATS), live=ex.live)
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, str(e)[:500])
        out['trace'] = traceback.format_exc()[-1500:]
    out['secs'] = round(time.time() - t0, 2)
    return out


def guarded(args, q, ix):
    q.put((ix, prove_entry(args)))


def run_parallel(jobs, limit, until, n=8):
    """run prove_entry for all jobs with a wall clock limit each and one for all"""
    q = mp.Queue()
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    active = {}
    while todo or active:
        while todo and len(active) < n:
            ix = todo.pop(0)
            p = mp.Process(target=guarded, args=(jobs[ix], q, ix))
            p.start()
            active[ix] = (p, time.time())
        try:
            while True:
                ix, r = q.get(timeout=0.05)
                res[ix] = r
                p, _ = active.pop(ix)
                p.join()
        except Exception:
            pass
        for ix, (p, t) in list(active.items()):
            if time.time() - t > limit or time.time() > until:
                p.kill()
                res[ix] = {'contract': jobs[ix][2], 'entry': None, 'obs': [], 'error': 'time limit', 'secs': round(time.time() - t, 2),
                           'trusted': [], 'syntactic': 0, 'paths': 0, 'throws': 0}
                del active[ix]
            elif not p.is_alive():
                p.join()
                try:
                    while True:
                        i2, r = q.get(timeout=0.3)
                        res[i2] = r
                        if i2 in active:
                            active.pop(i2)[0].join()
                except Exception:
                    pass
                if ix in active:
                    res[ix] = {'contract': jobs[ix][2], 'entry': None, 'obs': [], 'error': 'prover died (code %s)' % p.exitcode, 'secs': 0,
                               'trusted': [], 'syntactic': 0, 'paths': 0, 'throws': 0}
                    del active[ix]
    return res


def functions_of(src, extra):
    """library functions whose bodies are part of the entries' code"""
    out = os.path.join(build.BUILD, os.path.basename(src)[:-4] + '.fn.ll')
    try:
        build.compile_with(lambda more: build.run(['clang++-18'] + build.CFLAGS + list(extra) + more + ['-O0', '-S', '-emit-llvm', src, '-o', out]))
        txt = open(out).read()
        os.unlink(out)
    except Exception:
        return {}
    calls = {}
    cur = None
    for l in txt.split('\n'):
        m = re.match(r'define .*?@("?[\w.$]+"?)\(', l)
        if m:
            cur = m.group(1)
            calls[cur] = set()
        elif cur and ('call' in l or 'invoke' in l):
            for f in re.findall(r'@("?[\w.$]+"?)', l):
                calls[cur].add(f)
    return calls


def reach(calls, e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x in seen or x not in calls:
            continue
        seen.add(x)
        st.extend(calls[x])
    return seen


def demangle(names):
    names = sorted(names)
    if not names:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return r.stdout.split('\n')


class Driver:
    def __init__(self, name, extra=()):
        self.name, self.extra = name, list(extra)
        self.exe = os.path.join(build.BUILD, 'drv_' + name)
        self.err = None

    def compile(self):
        src = os.path.join(HERE, 'driver', 'd_' + self.name + '.cpp')
        links = []
        for l in open(src):
            m = re.match(r'// (flags|link): (.*)', l)
            if m and m.group(1) == 'flags':
                self.extra += m.group(2).replace('$REPO', build.REPO).replace('$VERIF', HERE).split()
            elif m:
                links += m.group(2).replace('$REPO', build.REPO).replace('$VERIF', HERE).split()
        for more in ([], ['-include', os.path.join(HERE, 'harness', 'std.h')]):
            r = subprocess.run(['clang++-18', '-std=c++17', '-O1', '-g', '-w', '-fsanitize=address,undefined',
                                '-fno-sanitize=vptr,pointer-overflow,function', '-fno-sanitize-recover=all', '-I' + os.path.join(HERE, 'harness')]
                               + more + build.INC + self.extra + [src, '-o', self.exe] + links, capture_output=True, text=True)
            if r.returncode == 0:
                break
        else:
            self.err = r.stderr[:2500]

    def run(self, prop, seed, ms):
        """('ok', n, samples) or ('fail', text)"""
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
                   UBSAN_OPTIONS='print_stacktrace=0')
        try:
            r = subprocess.run([self.exe, prop, str(seed), str(ms)], capture_output=True, text=True, errors='replace', timeout=ms / 1000 * 6 + 60, env=env)
        except subprocess.TimeoutExpired as e:
            return ('fail', 'driver did not come to an end: ' + str(e.stdout)[-600:], [])
        known = re.findall(r'^KNOWN (\S+) (.*)$', r.stdout, re.M)
        m = re.search(r'^CASES (\d+) DISTINCT (\d+)', r.stdout, re.M)
        if r.returncode == 0 and m:
            return ('ok', (int(m.group(1)), int(m.group(2)), re.findall(r'^SAMPLE (.*)$', r.stdout, re.M)), known)
        txt = '\n'.join(l for l in r.stdout.split('\n') if l.startswith(('FAIL', 'CASE')))
        return ('fail', 'exit code %d\n%s\n%s' % (r.returncode, txt, r.stderr[-3000:]), known)


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        code = check(prop, tier, seed, t0)
    except Exception as e:
        traceback.print_exc()
        path = replay(prop, 'internal error of the check\n' + traceback.format_exc())
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        code = 1
    sys.stdout.flush()
    return code


def replay(prop, txt):
    d = os.path.join(HERE, 'build', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.txt')
    open(p, 'w').write(txt)
    return p


def check(prop, tier, seed, t0):
    modname = prop.lower()
    m = importlib.import_module('contracts.' + modname)
    os.makedirs(build.BUILD, exist_ok=True)
    rp = os.path.join(HERE, "build", "replay", prop + ".txt")
    if os.path.exists(rp):
        os.unlink(rp)
    # [(harness, Contract)]; contracts marked slow only in the thorough tier
    proofs = [(h, c) for h, c in m.PROOFS if tier != 'quick' or not getattr(c, 'slow', False)]
    drivers = [Driver(*d) if isinstance(d, tuple) else Driver(d) for d in getattr(m, 'DRIVERS', [])]
    for d in drivers:
        d.exe += '_' + prop
    flags = getattr(m, 'FLAGS', [])
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(8)
    srcs = list(dict.fromkeys(h for h, c in proofs))
    fb = {h: pool.submit(build.build_ir, os.path.join(HERE, 'harness', h), flags, '.' + prop) for h in srcs}
    fd = [pool.submit(d.compile) for d in drivers]
    fc = {h: pool.submit(functions_of, os.path.join(HERE, 'harness', h), flags) for h in srcs}
    problems = []
    irs = {}
    for h, f in fb.items():
        try:
            irs[h] = f.result()
        except build.BuildError as e:
            problems.append('harness %s does not compile against the current tree:\n%s' % (h, str(e)[-1500:]))
    if getattr(m, 'background', None):
        m.background(tier)
    jobs = [(irs[h], modname, c.__name__, tier) for h, c in proofs if h in irs]
    res = run_parallel(jobs, ENTRY_LIMIT[tier], t0 + ALL_LIMIT[tier]) if jobs else []
    extra = m.extra_proofs(tier) if getattr(m, 'extra_proofs', None) else []
    obs = []
    failed = []
    trusted = set(BASE_TRUST) | set(getattr(m, 'TRUST', []))
    fnames = set()
    total_secs = 0
    syntactic = 0
    backend = {}
    calls = {}
    for h in srcs:
        calls.update(fc[h].result())
    per = []
    for (ir, _, cn, _), r in zip(jobs, res):
        if r['error']:
            problems.append('%s: %s' % (cn, r['error']))
        elif not r['obs']:
            problems.append('%s: no obligation was generated' % cn)
        elif not r['live']:
            problems.append('%s: no consistent path reaches the postcondition (vacuous)' % cn)
        for o in r['obs']:
            obs.append((cn,) + tuple(o))
            backend[o[3]] = backend.get(o[3], 0) + 1
            total_secs += o[2]
            if not o[1]:
                failed.append('%s: %s [%s] %s' % (cn, o[0], o[3], o[4]))
        trusted |= set(r['trusted'])
        syntactic += r['syntactic']
        if r.get('entry'):
            fnames |= reach(calls, r['entry'])
        per.append({'contract': cn, 'entry': r.get('entry'), 'obligations': len(r['obs']), 'discharged': sum(1 for o in r['obs'] if o[1]), 'secs': r['secs'],
                    'paths': r['paths'], 'exceptional_paths': r['throws'], 'bounds_checks_trivially_true': r['syntactic'], 'error': r['error'],
                    'solver': r.get('stats')})
    for x in extra:
        # dict(name, obs=[(name, ok, secs, status, detail)], functions=[...], trusted=[...], error)
        if x.get('error'):
            problems.append('%s: %s' % (x['name'], x['error']))
        for o in x['obs']:
            obs.append((x['name'],) + tuple(o))
            backend[o[3]] = backend.get(o[3], 0) + 1
            total_secs += o[2]
            if not o[1]:
                failed.append('%s: %s [%s] %s' % (x['name'], o[0], o[3], o[4]))
        if not x['obs']:
            problems.append('%s: no obligation was generated' % x['name'])
        trusted |= set(x.get('trusted', []))
        fnames |= set(x.get('functions', []))
        per.append({'contract': x['name'], 'obligations': len(x['obs']), 'discharged': sum(1 for o in x['obs'] if o[1])})
    bad = problems + failed
    # concrete runs
    for f in fd:
        f.result()
    ms = {'quick': 6000, 'thorough': 60000}[tier] * (4 if bad else 1)
    hits = []
    cases = []
    knownseen = []
    for d in drivers:
        if d.err:
            bad.append('driver %s does not compile against the current tree:\n%s' % (d.name, d.err))
            continue
    ok_drivers = [d for d in drivers if not d.err]
    for d, (st, txt, kn) in zip(ok_drivers, pool.map(lambda d: d.run(prop, seed, ms), ok_drivers)):
        knownseen += kn
        if st == 'fail':
            hits.append((d, txt))
        else:
            cases.append((d.name, txt))
    kf = json.load(open(KNOWN)) if os.path.exists(KNOWN) else {'findings': []}
    listed = {f['key']: f for f in kf['findings'] if f['property'] == prop}
    for k, t in knownseen:
        if k in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[k]['what']))
        else:
            hits.append((None, 'failing input %s: %s' % (k, t)))
    code = 0
    if hits:
        d, txt = hits[0]
        cmd = ('%s %s %d %d' % (d.exe, prop, seed, ms)) if d else ''
        p = replay(prop, 'property %s violated on real code\nrerun: %s\n%s\n\nfailed obligations:\n%s\n' % (prop, cmd, txt, '\n'.join(bad)))
        for b in bad[:10]:
            print('failed:', b[:600])
        print(txt[-1500:])
        print('VIOLATION property=%s replay=%s' % (prop, p))
        code = 1
    elif bad:
        p = replay(prop, 'property %s: obligations not discharged, no failing input found\n%s\n' % (prop, '\n'.join(bad)))
        for b in bad[:10]:
            print('failed:', b[:600])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
        code = 1
    names = [x for x in demangle(f for f in fnames if f.startswith('_Z')) if 'BlasBooster' in x.split('(')[0]] + sorted(f for f in fnames if not f.startswith('_Z') and not f.startswith('vc_') and '::' in f)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': len(obs), 'discharged': sum(1 for o in obs if o[2]),
              'checker_cmd': '/verif/check %s %s' % (prop, tier),
              'trusted_base': sorted(trusted),
              'backends': backend, 'solver_seconds': round(total_secs, 2),
              'bounds_checks_trivially_true': syntactic,
              'entries_under_contract': len(per), 'library_functions_verified_within_them': len(names), 'functions': names[:400],
              'contracts': per,
              'not_discharged': bad[:20],
              'bounded_cross_check': [{'driver': n, 'evaluations': c[0], 'distinct_nontrivial': c[1], 'samples': c[2][:3],
                                       'label': 'bounded: concrete runs of the same entries against an independent oracle; not counted as proved'} for n, c in cases],
          },
          'assumptions': sorted(trusted), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if code else 0}
    if not proofs and not extra:
        # bounded stand-in only: nothing is counted as proved
        ev['level'] = 'exploration'
        ev['coverage'] = {'evaluations': sum(c[0] for n, c in cases), 'distinct_nontrivial': sum(c[1] for n, c in cases),
                          'rule': 'bounded stand-in: random shapes, offsets and contents (seeded) through the real code under ASan/UBSan, compared with an independent oracle; '
                                  'a case counts once per distinct input text and is non-trivial when its checks were evaluated',
                          'samples': [x for n, c in cases for x in c[2][:3]], 'not_discharged': bad[:20]}
        ev['assumptions'] = ['bounded: only the inputs that were tried']
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d functions, %s, %.1f s' % (prop, tier, len(obs), sum(1 for o in obs if o[2]), len(names),
          ', '.join('%s %d cases' % (n, c[0]) for n, c in cases), time.time() - t0))
    for h in srcs:
        try:
            os.unlink(irs[h])
        except Exception:
            pass
    return code


BASE_TRUST = [
    'clang 18 front end and the LLVM passes sroa, early-cse, instcombine, simplifycfg, inline (source to IR)',
    'the verification condition generator /verif/vcgen and the solver z3',
    'index and size arithmetic does not overflow 64 bits',
    'floating point + - * are treated as exact real arithmetic unless the contract says otherwise',
    'distinct input arrays do not overlap',
]
