"""Decides one property: python -m vc.run C07 [--tier quick|thorough] [--replay FILE]

For every contract of the property: (1) the verification conditions generated from /repo's current source go to the solvers;
(2) the same contract is evaluated on the imported library for random inputs (cross-check of the assumed contracts on
dependencies, and the bounded stand-in where a function is out of reach); (3) a failed obligation's counterexample is replayed
on the imported library, then a directed search looks for a failing input.
"""
import sys, os, json, time, random, signal, importlib, traceback, tempfile, shutil, glob, re, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

TIERS = {'quick': dict(total=520, sym=330, conc_s=14, conc_n=260, replay_s=40, timeout=8000),
         'thorough': dict(total=3000, sym=1500, conc_s=120, conc_n=4000, replay_s=240, timeout=40000)}
JOBS = min(8, os.cpu_count() or 2)

def seed0(): return int(os.environ.get('VERIF_SEED', '1') or 1)

def load_contracts(prop):
    from vc import contract
    importlib.import_module('contracts.' + prop.lower())
    return contract.REGISTRY[prop]

def mined_constants():
    """Numbers that occur in the library: boundary candidates for the search of failing inputs."""
    import ast
    ints, reals = set(), set()
    for p in glob.glob('/repo/quantfinlib/**/*.py', recursive=True):
        try: t = ast.parse(open(p).read())
        except Exception: continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and 2 < n.value <= 400: ints.add(n.value)
            if isinstance(n, ast.Constant) and isinstance(n.value, float) and abs(n.value) < 1e6: reals.add(n.value)
    return sorted(ints), sorted(reals)

# ---------------------------------------------------------------- workers
def work_conc(prop, i, cfg, out):
    from vc import concrete
    name, fn, opts = load_contracts(prop)[i]
    ints, reals = mined_constants()
    t0 = time.time()
    n = {'ok': 0, 'skip': 0, 'fail': 0, 'error': 0}
    ens = 0; fails = []; sample = None; seen = set(); distinct = 0
    base = seed0() * 1000003
    budget = cfg['conc_s'] * opts.get('conc_factor', 1)
    count = int(cfg['conc_n'] * opts.get('conc_factor', 1))
    k = 0
    while k < count * (6 if n['ok'] < count // 3 else 1) and time.time() - t0 < budget:
        sd = base + k
        V = concrete.ConcV(sd, ints=ints if k % 3 == 0 else (), reals=reals, maxlen=opts.get('maxlen', 14) if k % 4 else opts.get('maxlen', 14) * 3)
        try: r = concrete.run_concrete(fn, V)
        except Exception as e:
            n['error'] += 1
            if n['error'] == 1: out['conc_error'] = f'{type(e).__name__}: {e} @ ' + ' <- '.join(f'{f.filename}:{f.lineno}' for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))
            if n['error'] > 20: break
            k += 1; continue
        n[r[0]] += 1
        if r[0] == 'ok':
            ens += r[1]
            h = hashlib.md5(repr(V.log_).encode()).hexdigest()
            if r[1] > 0 and h not in seen: seen.add(h); distinct += 1
            if sample is None or k == 3: sample = _short(V.log_)
        if r[0] == 'fail':
            fails.append({'obligation': r[1], 'detail': r[2], 'seed': sd, 'inputs': V.log_, 'spec': {'seed': sd, 'maxlen': V.maxlen, 'consts': k % 3 == 0}})
            if len(fails) >= 2: break
        k += 1
    out.update(conc=n, conc_evals=ens, conc_distinct=distinct, conc_sample=sample, conc_fails=fails, conc_t=time.time() - t0)

def _short(d):
    return {k: (v if not isinstance(v, (list, str)) or len(str(v)) < 300 else str(v)[:300] + '...') for k, v in d.items()}

def work_sym(prop, i, cfg, out, flush):
    t0 = time.time()
    from vc import core, contract, loader, prover
    name, fn, opts = load_contracts(prop)[i]
    funcs = {}
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'vc'); 
        def start(code, off):
            if code.co_filename.startswith('/repo/') and code.co_flags & 1 and not code.co_name.startswith(('_vc_x_', '<')): funcs[f'{code.co_filename[6:]}:{code.co_qualname}'] = 1
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start); mon.set_events(3, mon.events.PY_START)
    except Exception: pass
    core.reset_state()
    V = contract.SymV(loader.Loader(), timeout=cfg['timeout'], deadline=t0 + cfg['sym'] * 0.8)
    try:
        res = contract.run_symbolic(fn, V, maxpaths=opts.get('maxpaths', 600))
    except (core.Unsupported, core.PathAbort) as e:
        V.results.append(contract.Obl('supported', 'unsupported', '', 0, info=str(e))); res = []
    except RecursionError as e:
        V.results.append(contract.Obl('supported', 'unsupported', '', 0, info='recursion')); res = []
    obls = [dict(name=o.name, status=o.status, backend=o.backend, t=round(o.t, 3), info=o.info) for o in V.results]
    out.update(obls=obls, paths=len(res), feasible=sum(1 for r in res if r[0] == 'ok'), functions=sorted(funcs), assumed=dict(core.st().assumed),
               solver_time=prover.STAT['time'], queries=prover.STAT['queries'],
               backends={k: v for k, v in prover.STAT.items() if k in ('z3', 'z3-nlsat', 'cvc5', 'simplifier')})
    flush()
    bad = {}
    for o in V.results:
        if o.status == 'sat' and o.name not in bad: bad[o.name] = o
    out['failed'] = []
    for o in list(bad.values())[:6]:
        f = {'obligation': o.name, 'info': o.info}
        try: f['replay'] = replay_search(fn, o, opts, cfg)
        except Exception as e: f['replay'] = None; f['error'] = f'{type(e).__name__}: {e}'
        out['failed'].append(f)
        flush()
        if f['replay']: break
    out['sym_t'] = time.time() - t0

def replay_search(fn, o, opts, cfg):
    """Concretise the counterexample of a failed obligation and look around it on the real code."""
    from vc import concrete
    from vc.core import z3
    ints, reals = mined_constants()
    t0 = time.time()
    models = []
    iv = [d[1] for k, d in o.inp.items() if d[0] == 'int']
    if o.fs is not None:
        for cap in (6, 14, 40, None):
            s = z3.Solver(); s.set('timeout', 4000)
            for f in o.fs: s.add(f)
            if cap is not None:
                for v in iv: s.add(v <= cap, v >= -cap)
            if s.check() == z3.sat: models.append(s.model())
            if len(models) >= 3: break
    if not models and o.model is not None: models = [o.model]
    forced_list = []
    for m in models:
        forced_list.append(concretise(m, o.inp, True)); forced_list.append(concretise(m, o.inp, False))
    k = 0
    rng = random.Random(seed0())
    while time.time() - t0 < cfg['replay_s'] and k < 3000:
        forced = {}
        if forced_list and k < 40: forced = forced_list[k % len(forced_list)]
        elif forced_list and k % 3:
            f = rng.choice(forced_list)
            forced = {a: b for a, b in f.items() if not isinstance(b, tuple) or rng.random() < 0.3}
            if k % 3 == 2:
                for a in list(forced):
                    if rng.random() < 0.4: del forced[a]
        V = concrete.ConcV(seed0() * 7919 + k, forced=forced, ints=ints, reals=reals, maxlen=opts.get('maxlen', 14) * rng.choice([1, 1, 2, 6]))
        try: r = concrete.run_concrete(fn, V)
        except Exception: k += 1; continue
        if r[0] == 'fail':
            return {'obligation': r[1], 'detail': r[2], 'inputs': V.log_, 'forced': _js(forced), 'seed': seed0() * 7919 + k, 'maxlen': V.maxlen}
        k += 1
    return None

def _js(forced):
    return {k: (v if not isinstance(v, tuple) else [v[0], [[list(i), x] for i, x in v[1].items()]]) for k, v in forced.items()}
def _unjs(forced):
    return {k: (v if not isinstance(v, list) else (v[0], {tuple(i): x for i, x in v[1]})) for k, v in forced.items()}

def fval(v):
    from vc.core import z3
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v): return float(v.approx(15).as_fraction())
    return None

def concretise(m, inp, full):
    from vc.core import z3
    out = {}
    for name, d in inp.items():
        try:
            if d[0] in ('int', 'choice', 'real'):
                x = fval(m.eval(d[1], model_completion=True))
                if x is not None: out[name] = x
            elif d[0] == 'array':
                F, N, shape = d[1], d[2], d[3]
                dims = []
                for s in shape:
                    dims.append(s if isinstance(s, int) else fval(m.eval(s.v, model_completion=True)))
                ent = {}
                tot = 1
                for q in dims: tot *= max(q or 0, 0)
                import itertools
                if full and tot <= 400: pts = list(itertools.product(*[range(q) for q in dims]))
                else:
                    pts = []
                    for G in (F, N):
                        if G is None: continue
                        fi = m[G]
                        if isinstance(fi, z3.FuncInterp):
                            for e in range(fi.num_entries()):
                                E = fi.entry(e)
                                pts.append(tuple(E.arg_value(a).as_long() for a in range(E.num_args())))
                for p in pts:
                    v = fval(m.eval(F(*[z3.IntVal(a) for a in p]), model_completion=True))
                    if N is not None and z3.is_true(m.eval(N(*[z3.IntVal(a) for a in p]), model_completion=True)): v = float('nan')
                    if v is not None: ent[p] = v
                out[name] = ('full' if full else 'sparse', ent)
        except Exception: continue
    return out

# ---------------------------------------------------------------- driver
def spawn(prop, i, kind, cfg, d):
    path = os.path.join(d, f'{kind}_{i}.json')
    pid = os.fork()
    if pid: return pid, path
    code = 0
    try:
        os.setsid()
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 * 2**30, 6 * 2**30))
        sys.setrecursionlimit(6000)
        log = open(os.path.join(d, f'{kind}_{i}.log'), 'w')
        os.dup2(log.fileno(), 1); os.dup2(log.fileno(), 2)
        out = {}
        def flush():
            with open(path + '.tmp', 'w') as f: json.dump(out, f, default=str)
            os.replace(path + '.tmp', path)
        try:
            if kind == 'conc': work_conc(prop, i, cfg, out)
            else: work_sym(prop, i, cfg, out, flush)
        except BaseException as e:
            out['crash'] = ''.join(traceback.format_exception(e))[-1500:]
        flush()
    except BaseException: code = 3
    os._exit(code)

def run(prop, tier, only=None, verbose=False):
    t0 = time.time()
    cfg = TIERS[tier]
    cs = load_contracts(prop)
    # the symbolic engine and the library are imported before forking: shared by all workers
    import vc.core, vc.contract, vc.loader, vc.prover, vc.concrete
    d = tempfile.mkdtemp(prefix='vc_')
    tasks = []
    for i, (name, fn, opts) in enumerate(cs):
        if only and name != only: continue
        if not opts.get('bounded'): tasks.append((i, 'sym'))
    for i, (name, fn, opts) in enumerate(cs):
        if only and name != only: continue
        if not opts.get('proof_only'): tasks.append((i, 'conc'))
    running = {}; res = {}
    try:
        while tasks or running:
            while tasks and len(running) < JOBS:
                i, kind = tasks.pop(0)
                pid, path = spawn(prop, i, kind, cfg, d)
                lim = cfg['sym'] + cfg['replay_s'] * 2 if kind == 'sym' else cfg['conc_s'] * cs[i][2].get('conc_factor', 1) + 60
                running[pid] = (i, kind, path, min(time.time() + lim, t0 + cfg['total']))
            for pid, (i, kind, path, dl) in list(running.items()):
                w, _ = os.waitpid(pid, os.WNOHANG)
                late = time.time() > dl
                if w == 0 and late:
                    try: os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        try: os.kill(pid, signal.SIGKILL)
                        except ProcessLookupError: pass
                    os.waitpid(pid, 0); w = pid
                if w:
                    del running[pid]
                    try: r = json.load(open(path))
                    except Exception: r = {}
                    if late: r['timeout'] = True
                    res[(i, kind)] = r
            time.sleep(0.02)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return cs, res, time.time() - t0

def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f'finding: property={prop} '): out.append(l.split(' ', 2)[2])
    return out

TRUST = ['the contract texts in /verif/contracts', 'the engine in /verif/vc (loader rewriting, symbolic arrays, instantiated lemmas about sums, extrema, log, exp, sqrt)',
         'z3 and cvc5', 'floating point treated as exact real arithmetic (rounding, overflow and signed zeros out of scope)',
         'CPython semantics of the statements the loader leaves in place']

def report(prop, tier, cs, res, wall):
    obls = []; undecided = []; violations = []; functions = set(); assumed = {}; bounded = []; backends = {}
    conc = {'ok': 0, 'skip': 0, 'fail': 0, 'error': 0}; evals = distinct = queries = 0; st = 0.0; samples = []; notes = []
    per = []
    for i, (name, fn, opts) in enumerate(cs):
        s, c = res.get((i, 'sym')), res.get((i, 'conc'))
        if s is None and c is None: continue
        row = {'contract': name}
        failed_conc = None
        if c is not None:
            for k, v in c.get('conc', {}).items(): conc[k] += v
            evals += c.get('conc_evals', 0); distinct += c.get('conc_distinct', 0)
            if c.get('conc_sample') and len(samples) < 5: samples.append({'contract': name, 'inputs': c['conc_sample']})
            if c.get('conc_error'): notes.append(f'{name}: concrete reading not evaluated: {c["conc_error"]}')
            if c.get('crash'): notes.append(f'{name}: concrete worker: {c["crash"][-300:]}')
            for f in c.get('conc_fails', [])[:1]:
                failed_conc = f
                violations.append((name, f['obligation'], f, True))
            row['concrete'] = c.get('conc')
        if s is not None:
            os_ = s.get('obls', [])
            functions.update(s.get('functions', [])); queries += s.get('queries', 0); st += s.get('solver_time', 0)
            for k, v in s.get('assumed', {}).items(): assumed[k] = assumed.get(k, 0) + v
            for k, v in s.get('backends', {}).items(): backends[k] = backends.get(k, 0) + v
            n_un = [o for o in os_ if o['status'] not in ('proved', 'sat')]
            row.update(obligations=len([o for o in os_ if o['status'] != 'unsupported']), proved=len([o for o in os_ if o['status'] == 'proved']), paths=s.get('paths'), seconds=s.get('sym_t'))
            obls += [o for o in os_ if o['status'] != 'unsupported']
            for o in n_un: undecided.append(f'{name}: {o["name"]}: {o["status"]} {o["info"][:160]}')
            if not os_ or s.get('timeout') or s.get('crash'):
                undecided.append(f'{name}: ' + ('time limit' if s.get('timeout') else s.get('crash', 'no obligation generated')[-300:]))
            if failed_conc is None:
                got = [f for f in s.get('failed', []) if f.get('replay')]
                if got: violations.append((name, got[0]['replay']['obligation'], got[0]['replay'], True))
                else:
                    sat = [o for o in os_ if o['status'] == 'sat']
                    if sat: violations.append((name, sat[0]['name'], sat[0], False))
            und_here = n_un or not os_ or s.get('timeout') or s.get('crash')
            if opts.get('limit'): bounded.append(f'{name}: discharged deductively, but only for {opts["limit"]}')
            if und_here: bounded.append(f'{name}: undecided obligations covered only by {c.get("conc", {}).get("ok", 0) if c else 0} concrete evaluations')
        else:
            bounded.append(f'{name}: {opts.get("bounded")}; {c.get("conc", {}).get("ok", 0)} concrete evaluations')
            row['bounded'] = True
        per.append(row)
    # violations
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    kf = known_findings(prop)
    lines = []; real = []
    for name, ob, f, found in violations:
        text = f'{name}: {ob}'
        hit = [k for k in kf if k.startswith(text)]
        if hit: lines.append(f'KNOWN-FINDING: property={prop} {text}'); continue
        slug = re.sub(r'[^A-Za-z0-9]+', '_', name)[:40]
        path = os.path.join(ROOT, 'replays', f'{prop}_{slug}.json')
        json.dump({'property': prop, 'contract': name, 'failed obligation': ob, 'failing input found': found, 'data': f,
                   'rerun': f'/opt/venv/bin/python -m vc.run {prop} --replay {path}'}, open(path, 'w'), default=str, indent=1)
        real.append((name, ob, found, path))
    nd = len([o for o in obls if o['status'] == 'proved'])
    ev = {'property': prop, 'tier': tier, 'seed': seed0(), 'level': 'proof' if obls else 'other', 'wall_s': round(wall, 2), 'violations': len(real),
          'coverage': {'obligations': len(obls), 'discharged': nd, 'checker_cmd': f'/opt/venv/bin/python -m vc.run {prop} --tier {tier}', 'trusted_base': TRUST,
                       'functions_under_contract': sorted(functions), 'backends': backends, 'solver_queries': queries, 'solver_time_s': round(st, 2),
                       'undecided': undecided, 'bounded': bounded, 'contracts': per,
                       'evaluations': conc['ok'], 'distinct_nontrivial': distinct,
                       'rule': 'the same contracts evaluated on the imported library for random inputs (ties, constant, monotone, missing values, boundary sizes); non-trivial: at least one postcondition evaluated, inputs not seen before',
                       'postconditions_evaluated_concretely': evals, 'concrete_runs': conc, 'samples': samples or [{'none': 'proof only'}],
                       'explanation': 'obligations discharged deductively; contracts listed under bounded are only evaluated on the stated number of concrete inputs'},
          'assumptions': [f'assumed contract (used {v}x): {k}' for k, v in sorted(assumed.items())] + notes}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in sorted(set(lines)): print(l)
    print(f'{prop}: {nd}/{len(obls)} obligations discharged, {len(undecided)} undecided, {len(functions)} functions, {conc["ok"]} concrete evaluations, {wall:.1f}s')
    for u in undecided[:8]: print('  undecided:', u[:240])
    for n in notes[:5]: print('  note:', n[:300])
    if real:
        real.sort(key=lambda r: not r[2])
        for name, ob, found, path in real:
            print(f'  failed: {name}: {ob}' + ('' if found else ' (no failing input found)'))
        name, ob, found, path = real[0]
        print(f'VIOLATION property={prop} replay={path}' + ('' if found else ' no-failing-input-found'))
        return 1
    return 0

def replay(prop, path):
    from vc import concrete
    d = json.load(open(path))
    f = d['data']
    fn = [c for c in load_contracts(prop) if c[0] == d['contract']][0]
    ints, reals = mined_constants()
    if 'spec' in f: V = concrete.ConcV(f['spec']['seed'], ints=ints if f['spec']['consts'] else (), reals=reals, maxlen=f['spec']['maxlen'])
    elif 'forced' in f: V = concrete.ConcV(f['seed'], forced=_unjs(f['forced']), ints=ints, reals=reals, maxlen=f['maxlen'])
    else:
        print('no failing input recorded; verifier output:', f); return 1
    r = concrete.run_concrete(fn[1], V)
    print(r, V.log_)
    return 1 if r[0] == 'fail' else 0

def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    if '--only' in argv: only = argv[argv.index('--only') + 1]
    if '--replay' in argv: return replay(prop, argv[argv.index('--replay') + 1])
    try:
        sys.path.insert(0, '/repo')
        cs, res, wall = run(prop, tier, only)
        return report(prop, tier, cs, res, wall)
    except Exception as e:
        traceback.print_exc()   # an error of the check itself decides nothing: no alarm, and the evidence says so
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump({'property': prop, 'tier': tier, 'seed': seed0(), 'level': 'other', 'wall_s': 0, 'coverage': {'explanation': f'check failed: {type(e).__name__}: {e}'}},
                  open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'))
        return 0

if __name__ == '__main__':
    os.environ.setdefault('OMP_NUM_THREADS', '1'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    r = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(r)
