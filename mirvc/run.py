"""Check one property: regenerate the MIR of /repo, verify every contract of the property (and every contract it relies on),
build and run the executable contracts, write the evidence, report."""
import sys, os, re, json, time, subprocess, hashlib, threading, traceback, importlib, multiprocessing, glob, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
WORK = os.path.join(VERIF, '.work')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'specs'))


def env_cargo(target):
    e = dict(os.environ)
    for k in ('RUST_BACKTRACE', 'RUST_LOG', 'RUSTFLAGS'):
        e.pop(k, None)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTC_WRAPPER='', CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    return e


def src_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.pest', '.lock')):
                files.append(os.path.join(root, f))
    for f in files:
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def prep_target(target, h):
    """drop cached results of the repository's crates unless they were built from these very sources"""
    os.makedirs(target, exist_ok=True)
    mark = os.path.join(target, 'srchash')
    old = open(mark).read() if os.path.exists(mark) else ''
    if old != h:
        for prof in ('release', 'debug'):
            for d in glob.glob(os.path.join(target, prof, '.fingerprint', '*')):
                b = os.path.basename(d)
                if re.match(r'^(utils|logic_formula|cryptovampire|cryptovampire_macros|harness)-', b):
                    shutil.rmtree(d, ignore_errors=True)
        return False
    return True


def gen_mir(log):
    target = os.path.join(WORK, 'mirtarget')
    out = os.path.join(WORK, 'mir')
    os.makedirs(out, exist_ok=True)
    h = src_hash()
    fresh = prep_target(target, h)
    if fresh and all(os.path.exists(os.path.join(out, c + '.mir')) for c in ('utils', 'logic_formula', 'cryptovampire')):
        return out, h
    e = env_cargo(target)
    e['RUSTC_WORKSPACE_WRAPPER'] = os.path.join(HERE, 'rustc_wrap.sh')
    e['MIRVC_OUT'] = out
    p = subprocess.run(['cargo', 'check', '--release', '--offline', '--locked', '-p', 'cryptovampire', '--lib'], cwd=REPO, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        log(p.stderr[-3000:])
        raise SystemExit(2)
    open(os.path.join(target, 'srchash'), 'w').write(h)
    return out, h


class Harness(threading.Thread):
    def __init__(self):
        super().__init__()
        self.ok = False
        self.err = ''
        self.bin = os.path.join(WORK, 'htarget', 'release', 'harness')

    def run(self):
        target = os.path.join(WORK, 'htarget')
        h = src_hash()
        prep_target(target, h)
        e = env_cargo(target)
        e['RUSTFLAGS'] = '--cfg verif'
        p = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked'], cwd=os.path.join(VERIF, 'harness'), env=e, capture_output=True, text=True)
        self.ok = p.returncode == 0
        self.err = p.stderr[-3000:]
        if self.ok:
            open(os.path.join(target, 'srchash'), 'w').write(h)


# ------------------------------------------------------------------------------------------------ verification jobs
_P = None
_MODS = None


def load_mods(names):
    return {n: importlib.import_module(n) for n in names}


def closure_mods(prop):
    seen = []

    def go(n):
        if n in seen:
            return
        seen.append(n)
        for d in getattr(importlib.import_module(n), 'DEPS', []):
            go(d)
    go(prop)
    return seen


def new_engine(budget, qms):
    from engine import Engine, Anchor
    eng = Engine(_P, budget_s=budget, query_ms=qms)
    lost = []
    allc = {}
    for n, m in _MODS.items():
        eng.hooks += list(getattr(m, 'HOOKS', []))
        eng.views += list(getattr(m, 'VIEWS', []))
        for ct in m.contracts():
            allc[ct.name] = ct
            try:
                ct.attach(eng)
            except Anchor as e:
                lost.append((ct.name, str(e)))
    return eng, allc, lost


def job(a):
    """verify one contract or lemma in a worker"""
    kind, mod, name, budget, qms = a
    from engine import Unsupported
    t0 = time.time()
    r = dict(kind=kind, module=mod, name=name, status='ok', obls=[], reason='', paths=0)
    try:
        eng, allc, lost = new_engine(budget, qms)
        r['lost'] = lost
        if kind == 'contract':
            ct = allc[name]
            if any(n == name for n, _ in lost):
                raise Unsupported('anchor not found: ' + dict(lost)[name])
            ct.verify(eng)
            r['paths'] = ct.paths
            r['anchor'] = ct.fns[0].crate + '::' + ct.fns[0].name
        else:
            from engine import State

            class V:
                loops = None
            v = V()
            v.name = name
            eng.verifying = v
            lem = dict((n, f) for n, f in _MODS[mod].LEMMAS)[name]
            for oname, hyps, goal in lem(eng):
                st = State()
                for h in hyps:
                    st.assume(h)
                eng.oblige(st, oname, goal)
    except Unsupported as e:
        r['status'] = 'unsupported'
        r['reason'] = str(e)
    except RecursionError as e:
        r['status'] = 'unsupported'
        r['reason'] = 'recursion limit'
    except Exception as e:
        r['status'] = 'unsupported'
        r['reason'] = 'verifier error: %s %s' % (e, traceback.format_exc()[-1500:])
    try:
        r['obls'] = [dict(name=o.name, verdict=o.verdict, t=round(o.dt, 3), detail=o.detail[:6000]) for o in eng.obls]
        r['inlined'] = sorted(eng.inlined)
        r['used'] = sorted(eng.used_contracts)
        r['havocked'] = sorted(eng.havocked)
        r['modelled'] = sorted(eng.modelled)
        r['assumptions'] = sorted(eng.assumptions)
        r['nquery'] = eng.nquery
        r['solver_s'] = eng.solver_s
    except Exception:
        pass
    r['wall'] = time.time() - t0
    return r


def verify(prop, mir, tier, log):
    global _P, _MODS
    from prog import Program
    names = closure_mods(prop.lower())
    _MODS = load_mods(names)
    _P = Program(REPO, mir)
    budget, qms = (240, 20000) if tier == 'quick' else (900, 60000)
    owner = {}
    todo = []
    for n, m in _MODS.items():
        for ct in m.contracts():
            owner[ct.name] = n
            if n == prop.lower() and not ct.trusted:
                todo.append(('contract', n, ct.name, budget, qms))
    for n, _ in getattr(_MODS[prop.lower()], 'LEMMAS', []):
        todo.append(('lemma', prop.lower(), n, budget, qms))
    trusted = {ct.name: ct.doc for m in _MODS.values() for ct in m.contracts() if ct.trusted}
    done = {}
    results = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=8) as pool:
        while todo:
            batch = [t for t in todo if t[2] not in done]
            todo = []
            for t in batch:
                done[t[2]] = None
            for r in pool.imap_unordered(job, batch):
                results.append(r)
                bad = [o for o in r['obls'] if o['verdict'] != 'proved']
                log('%-10s %-60s %d/%d obligations, %.1fs %s' % (r['status'], r['name'], len(r['obls']) - len(bad), len(r['obls']), r['wall'], r['reason'][:300]))
                for u in r.get('used', []):
                    if u not in done and u in owner and u not in trusted:
                        todo.append(('contract', owner[u], u, budget, qms))
    results.sort(key=lambda r: r['name'])
    return results, trusted


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    replay = os.path.join(evd, '%s.replay.txt' % prop)
    if os.path.exists(replay):
        os.remove(replay)
    lines = []

    def log(s):
        lines.append(s)
        print(s, flush=True)
    H = Harness()
    H.start()
    mir, h = gen_mir(log)
    log('MIR of /repo (source hash %s) after %.0fs' % (h[:12], time.time() - t0))
    results, trusted = verify(prop, mir, tier, log)
    tv = time.time() - t0
    H.join()
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    kf = [k for k in known.get('findings', []) if k['property'] == prop]
    # executable contracts
    hres = dict(evaluations=0, distinct=0, samples=[], fails=[], error='')
    if H.ok:
        n = '1' if tier == 'quick' else '20'
        e = dict(os.environ)
        e.pop('RUST_LOG', None)
        try:
            p = subprocess.run([H.bin, prop, str(seed), n], capture_output=True, text=True, timeout=300 if tier == 'quick' else 1800, env=e, cwd=WORK)
            for l in p.stdout.splitlines():
                if l.startswith('FAIL '):
                    hres['fails'].append(l[5:])
                elif l.startswith('STATS '):
                    d = json.loads(l[6:])
                    hres['evaluations'] += d['evaluations']
                    hres['distinct'] += d['distinct']
                elif l.startswith('SAMPLE '):
                    hres['samples'].append(l[7:])
            if p.returncode not in (0, 1) or (p.returncode == 1 and not hres['fails']):
                hres['error'] = 'harness ended with %d: %s' % (p.returncode, (p.stderr or p.stdout)[-1500:])
                hres['fails'].append('harness-abort the code under test crashed the harness: %s' % (p.stderr or '')[-400:].replace('\n', ' | '))
        except subprocess.TimeoutExpired:
            hres['fails'].append('harness-timeout the executable contracts did not terminate')
    else:
        hres['error'] = 'harness does not build against this tree: ' + H.err[-1500:]
    # decide
    rejected, unsup = [], []
    nob = nd = 0
    for r in results:
        for o in r['obls']:
            nob += 1
            if o['verdict'] == 'proved':
                nd += 1
            else:
                rejected.append((r, o))
        if r['status'] != 'ok':
            unsup.append(r)
    fails = []
    for f in hres['fails']:
        k = [x for x in kf if x.get('harness') and re.search(x['harness'], f)]
        if k:
            log('KNOWN-FINDING: property=%s %s' % (prop, k[0]['text']))
        else:
            fails.append(f)
    rej = []
    for r, o in rejected:
        k = [x for x in kf if x.get('obligation') and re.search(x['obligation'], r['name'] + ': ' + o['name'])]
        if k:
            log('KNOWN-FINDING: property=%s %s' % (prop, k[0]['text']))
        else:
            rej.append((r, o))
    viol = bool(fails or rej)
    log('%d obligations, %d discharged, %d contracts out of reach (bounded stand-in), executable contracts: %d evaluations, %d failures' %
        (nob, nd, len(unsup), hres['evaluations'], len(hres['fails'])))
    for r in unsup:
        log('  bounded only: %s: %s' % (r['name'], r['reason'][:300]))
    if hres['error']:
        log('  ' + hres['error'][:1500])
    # evidence
    fns = sorted(set(r.get('anchor', r['name']) for r in results if r['status'] == 'ok'))
    inl = sorted(set(x for r in results for x in r.get('inlined', [])))
    mdl = sorted(set(x for r in results for x in r.get('modelled', [])))
    hav = sorted(set(x for r in results for x in r.get('havocked', [])))
    ass = sorted(set(x for r in results for x in r.get('assumptions', [])))
    base = ['rustc 1.99.1 MIR (-Zunpretty=mir, opt-level 0, debug assertions and overflow checks off as in the release build)',
            'mirvc (MIR semantics, %d library models), z3 4.x Python API' % len(mdl)]
    cov = dict(obligations=nob, discharged=nd, checker_cmd='bash /verif/check.sh %s %s' % (prop, tier), trusted_base=base,
               functions_under_contract=fns, functions_inlined=len(inl), contracts=[dict(name=r['name'], status=r['status'], obligations=len(r['obls']), paths=r['paths'], wall_s=round(r['wall'], 2), reason=r['reason'][:300]) for r in results],
               solver='z3', solver_queries=sum(r.get('nquery', 0) for r in results), solver_s=round(sum(r.get('solver_s', 0) for r in results), 2),
               library_models_used=mdl, library_calls_havocked=hav, trusted_contracts=trusted, out_of_reach=[dict(name=r['name'], reason=r['reason'][:500]) for r in unsup],
               bounded_executable_contracts=dict(evaluations=hres['evaluations'], distinct_nontrivial=hres['distinct'], samples=hres['samples'][:3], error=hres['error'][:500]), source_hash=h)
    mod = _MODS[prop.lower()]
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'), coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + ass + ['partial correctness: termination of loops and recursion is not proved',
                                                                        'library models (%s) state the documented behaviour of std/itertools' % ', '.join(mdl[:200])],
              wall_s=round(time.time() - t0, 1), violations=len(fails) + len(rej))
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s, source hash %s\n' % (prop, h))
            if fails:
                f.write('\nFAILING INPUTS on the real code (re-run: %s %s %d 1)\n' % (H.bin, prop, seed))
                for x in fails[:20]:
                    f.write('  ' + x + '\n')
            if rej:
                f.write('\nREJECTED OBLIGATIONS\n')
                for r, o in rej:
                    f.write('\n[%s] contract %s (%s)\n  obligation: %s\n  verifier output:\n%s\n' % (o['verdict'], r['name'], r.get('anchor', ''), o['name'], o['detail']))
            f.write('\nLOG\n' + '\n'.join(lines) + '\n')
        for x in fails[:5]:
            log('  failing input: ' + x[:300])
        for r, o in rej[:10]:
            log('  rejected [%s] %s: %s' % (o['verdict'], r['name'], o['name']))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if fails else ' no-failing-input-found'), flush=True)
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
