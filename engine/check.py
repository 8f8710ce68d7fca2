"""check.py PROPERTY: compile the real code, verify every contract of the property, replay failures, write evidence."""
import concurrent.futures as cf
import glob, json, os, re, resource, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config

VERIF = os.path.dirname(HERE)
T0 = time.time()
NCPU = os.cpu_count() or 4


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'


def compile_all(cfg, bd):
    jobs = []
    irs, objs = [], []
    for d in cfg['drivers']:
        src = os.path.join(VERIF, 'contracts', d)
        b = os.path.join(bd, d.replace('.cpp', ''))
        jobs.append((['clang++-18'] + config.FLAGS + config.IRFLAGS + cfg.get('flags', []) + ['-o', b + '.ll', src], b + '.ll'))
        jobs.append((['clang++-18'] + config.FLAGS + config.NATFLAGS + cfg.get('flags', []) + ['-o', b + '.o', src], b + '.o'))
        irs.append(b + '.ll')
        objs.append(b + '.o')
    for d in cfg.get('srcs', []):
        src = os.path.join(config.REPO, 'src', d)
        b = os.path.join(bd, 'src_' + d.replace('/', '_').replace('.cpp', ''))
        if not d.startswith('nat:'):
            jobs.append((['clang++-18'] + config.FLAGS + config.IRFLAGS + ['-o', b + '.ll', src], b + '.ll'))
            irs.append(b + '.ll')
        jobs.append((['clang++-18'] + config.FLAGS + config.NATFLAGS + ['-o', b + '.o', src], b + '.o'))
        objs.append(b + '.o')
    for d in cfg.get('natsrcs', []):
        src = os.path.join(config.REPO, 'src', d)
        b = os.path.join(bd, 'src_' + d.replace('/', '_').replace('.cpp', ''))
        jobs.append((['clang++-18'] + config.FLAGS + config.NATFLAGS + ['-o', b + '.o', src], b + '.o'))
        objs.append(b + '.o')
    b = os.path.join(bd, 'native_rt.o')
    jobs.append((['clang++-18'] + config.FLAGS + config.NATFLAGS + ['-o', b, os.path.join(VERIF, 'contracts', 'native.cpp')], b))
    objs.append(b)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: (j, run(j[0], 600)), jobs))
    for j, (rc, so, se) in res:
        if rc:
            log('compile failed:', j[1], se[-3000:])
            raise SystemExit(2)
    exe = os.path.join(bd, 'native')
    rc, so, se = run(['clang++-18', '-fsanitize=address', '-rdynamic', '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--gc-sections', '-o', exe] + objs + ['-ldl', '-lm'] + cfg.get('libs', []), 300)
    if rc:
        log('link failed', se[-3000:])
        raise SystemExit(2)
    return irs, exe


def native_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:hard_rss_limit_mb=3000'
    return e


def native_random(exe, contract, seed, count, secs, out):
    rc, so, se = run([exe, 'random', contract, str(seed), str(count), str(secs), out], secs + 60, env=native_env())
    return rc, so, se


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and not k.get('fixed')]


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = config.PROPS[prop]
    rep = os.path.join(VERIF, 'replay', prop)
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for f in glob.glob(os.path.join(rep, '*')):
        os.unlink(f)
    bd = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        return check(prop, tier, seed, cfg, rep, bd)
    finally:
        shutil.rmtree(bd, ignore_errors=True)


def check(prop, tier, seed, cfg, rep, bd):
    irs, exe = compile_all(cfg, bd)
    log('compiled', len(irs), 'IR modules')
    contracts, bounded = [], []
    for ll in irs:
        contracts += re.findall(r'^define [^@\n]*@(%s__\w+)\(' % prop, open(ll).read(), re.M)
    bounded = sorted(set(re.findall(r' T (B_%s__\w+)$' % prop, run(['nm', exe], 60)[1], re.M)))
    if not contracts:
        log('no contracts')
        return 2
    known = load_known(prop)
    budget = 260 if tier == 'quick' else 1500
    results = {}

    def prove1(c, budget=budget):
        o = os.path.join(bd, c + '.json')
        rc, so, se = run([sys.executable, os.path.join(HERE, 'worker.py'), o, c, str(budget)] + irs, budget + 120)
        try:
            return json.load(open(o))
        except Exception:
            return dict(contract=c, status='unsupported', reason='verifier process ended: rc=%s %s' % (rc, (se or '')[-400:]), obligations=[], covers={},
                        functions=[], trusted=[], wall_s=0, paths=0)

    slow = cfg.get('slow', [])
    order = sorted(contracts, key=lambda c: (0 if c.split('__', 1)[1] in slow else 1))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {c: ex.submit(prove1, c) for c in order}
        for c in order:
            results[c] = futs[c].result()
    # obligations left undecided by a time limit get a second, longer attempt
    again = [c for c in contracts if any(o['status'] == 'unknown' for o in results[c]['obligations'])]
    if again and time.time() - T0 < 420:
        log('second attempt:', again)
        with cf.ThreadPoolExecutor(max(1, NCPU // 2)) as ex:
            b2 = (int(max(60, 700 - (time.time() - T0))) if tier == 'quick' else 2400) // max(1, -(-len(again) // (NCPU // 2)))
            for c, r in zip(again, ex.map(lambda c: prove1(c, b2), again)):
                if not any(o['status'] == 'refuted' for o in results[c]['obligations']) or r['status'] == 'ok':
                    results[c] = r
    log('proof attempts done')

    # ---- native execution of the same contracts: witnesses, replay, bounded stand-ins
    native = {}

    def nat(c):
        bad = c.startswith('B_') or results[c]['status'] != 'ok' or any(o['status'] != 'proved' for o in results[c]['obligations'])
        outs = []
        f = os.path.join(rep, c + '.txt')
        if not c.startswith('B_'):
            k = 0
            for o in results[c]['obligations']:
                if o['status'] != 'proved' and o.get('model') and k < 12:
                    k += 1
                    mf = os.path.join(bd, c + '.model')
                    open(mf, 'w').write('contract %s\n' % c + ''.join('input %s %s\n' % kv for kv in o['model'].items()))
                    rc, so, se = run([exe, 'replay', mf, f, str(seed)], 60, env=native_env())
                    if rc == 1 or (rc not in (0, 2, 3) and os.path.exists(f)):
                        return c, dict(failed=True, how='counterexample replayed', out=(so or se)[-600:], file=f, executed=1, effective=1)
        q = tier == 'quick'
        secs = (6 if bad else 1) * (1 if q else 10)
        cnt = (400000 if bad else 3000) * (1 if q else 10)
        tot = eff = 0
        exh = False
        reached = []
        if c.startswith('B_'):
            secs, cnt = cfg.get('bounded_secs', 10) * (1 if q else 10), 10 ** 9
        if c in cfg.get('enum', []) or c.split('__', 1)[1] in cfg.get('enum', []):
            es = cfg.get('enum_secs', 40) * (1 if q else 10)
            rc, so, se = run([exe, 'enum', c, str(10 ** 9), str(es), f, str(seed)], es + 60, env=native_env())
            m = re.search(r'RUN (\d+) EFFECTIVE (\d+)', so or '')
            if m:
                tot += int(m.group(1)); eff += int(m.group(2))
            exh = 'EXHAUSTIVE' in (so or '')
            if rc not in (0, 3, 124):
                return c, dict(failed=True, how='enumeration', out=(so + se)[-1500:], file=f, executed=tot, effective=eff)
        rc, so, se = native_random(exe, c, seed, cnt, secs, f)
        m = re.search(r'RUN (\d+) EFFECTIVE (\d+)', so or '')
        if m:
            tot += int(m.group(1)); eff += int(m.group(2))
        m = re.search(r'REACHED (.*)', so or '')
        if m:
            reached = m.group(1).split('|')
        if rc == 3 or rc == 124:
            return c, dict(failed=False, executed=tot, effective=eff, note='native run gave no answer (%s)' % rc, exhaustive=exh, reached=reached)
        if rc != 0:
            return c, dict(failed=True, how='random search, seed %d' % seed, out=(so + se)[-1500:], file=f, executed=tot, effective=eff)
        return c, dict(failed=False, executed=tot, effective=eff, exhaustive=exh, reached=reached)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for c, r in ex.map(nat, contracts + bounded):
            native[c] = r
    log('native runs done')

    # ---- verdict
    viol = []      # (replay path, concrete?, text)
    kf = []
    undecided = []
    nob = ndis = 0
    backends = {}
    solve = 0.0
    functions, trusted = set(), set()
    per = []

    def known_for(c, label):
        for k in known:
            if k['contract'] == c and (not k.get('label') or label.startswith(k['label'])):
                return k
        return None

    for c in contracts:
        r = results[c]
        functions |= set(r['functions'])
        trusted |= set(r['trusted'])
        solve += r.get('solve_s', 0)
        good = 0
        failing = []
        for o in r['obligations']:
            nob += 1
            if o['status'] == 'proved':
                ndis += 1
                good += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else:
                failing.append(o)
        n = native[c]
        vac = [k for k, v in r['covers'].items() if v == 'unsat']
        unk = [k for k, v in r['covers'].items() if v == 'unknown' and not n.get('effective')]
        per.append(dict(contract=c, status=r['status'], obligations=len(r['obligations']), proved=good, paths=r.get('paths'), wall_s=r.get('wall_s'),
                        reason=r.get('reason'), native_runs=n.get('executed'), native_effective=n.get('effective'), covers=r['covers']))
        if r['status'] == 'ok' and not r['obligations']:
            failing.append(dict(label='contract generates obligations', status='refuted', detail='no obligation was generated'))
        for k in vac:
            failing.append(dict(label='reachability of ' + k, status='refuted', detail='the point is unreachable under the preconditions'))
        if n['failed']:
            label = ''
            try:
                for l in open(n['file']):
                    if l.startswith('failed '):
                        label = l[7:].strip()
            except OSError:
                pass
            if not os.path.exists(n['file']):
                open(n['file'], 'w').write('contract %s\nfailed %s\n' % (c, n['out']))
            k = known_for(c, label)
            with open(n['file'], 'a') as f:
                f.write('how %s\noutput %s\n' % (n['how'], n['out'].strip().replace('\n', ' | ')[:1500]))
                for o in failing[:20]:
                    f.write('obligation %s: %s\n' % (o['label'], o['status']))
            if k:
                kf.append(k)
                failing = [o for o in failing if not known_for(c, o['label'])]
            else:
                viol.append((n['file'], True, '%s: %s' % (c, label or n['out'][:200])))
                continue
        failing = [o for o in failing if not (known_for(c, o['label']) and not kf.append(known_for(c, o['label'])))]
        if failing:
            p = os.path.join(rep, c + '.obligation.txt')
            with open(p, 'w') as f:
                f.write('contract %s\n' % c)
                for o in failing[:40]:
                    f.write('failed obligation: %s\n  verifier: %s %s %s\n  where: %s\n  goal: %s\n  model: %s\n  path: %s\n' % (
                        o['label'], o['status'], o.get('backend'), o.get('detail'), o.get('where'), o.get('goal'), o.get('model'), '\n        '.join(o.get('path', []))))
            viol.append((p, False, '%s: %s' % (c, '; '.join(sorted({o['label'] for o in failing}))[:300])))
        elif r['status'] != 'ok':
            undecided.append('%s: %s' % (c, r.get('reason', '')[:300]))
    for c in bounded:
        n = native[c]
        if n['failed']:
            label = ''
            if os.path.exists(n['file']):
                for l in open(n['file']):
                    if l.startswith('failed '):
                        label = l[7:].strip()
            else:
                open(n['file'], 'w').write('contract %s\nfailed %s\n' % (c, n['out']))
            k = known_for(c, label)
            if k:
                kf.append(k)
            else:
                with open(n['file'], 'a') as f:
                    f.write('how %s\noutput %s\n' % (n['how'], n['out'].strip().replace('\n', ' | ')[:1500]))
                viol.append((n['file'], True, '%s: %s' % (c, label or n['out'][:200])))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=dict(
        obligations=nob, discharged=ndis, checker_cmd='python3-vt /verif/engine/check.py %s' % prop,
        trusted_base=['clang-18 front end (C++ to LLVM IR), -O0', 'verif/engine: IR semantics and VC generator (sym.py, ir.py), ring.py, ideal.py',
                      'z3 5.x / z3 4.8 / cvc5 1.1 (unsat answers)'] + ['contract assumed: ' + t for t in sorted(trusted)],
        contracts=len(contracts), contracts_proved=sum(1 for p in per if p['status'] == 'ok' and p['obligations'] == p['proved']),
        backends=backends, solver_time_s=round(solve, 1), functions_under_contract=sorted(functions)[:400], number_of_functions=len(functions),
        undecided_contracts=undecided, per_contract=per,
        bounded_standins=[dict(contract=c, executed=native[c].get('executed'), effective=native[c].get('effective'), exhaustive=native[c].get('exhaustive'),
                               note='bounded, not counted as proved') for c in bounded + [u.split(':')[0] for u in undecided]],
        native_executions=sum(n.get('executed') or 0 for n in native.values())),
        assumptions=['floating point treated as exact real arithmetic in proofs (native runs use the real arithmetic with a tolerance of 1e-6)',
                     'inputs are finite; allocation succeeds'] + cfg.get('assumptions', []),
        wall_s=round(time.time() - T0, 1), violations=len(viol))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for p in per:
        if p['status'] != 'ok' or p['proved'] != p['obligations'] or p['wall_s'] > 60:
            log(p['contract'], p['status'], '%d/%d' % (p['proved'], p['obligations']), p['reason'] or '', '%ss' % p['wall_s'])
    log('%s: %d contracts, %d obligations, %d discharged %s, %d undecided contracts, %d bounded stand-ins, solver %.0fs' % (
        prop, len(contracts), nob, ndis, backends, len(undecided), len(bounded), solve))
    for k in {json.dumps(k, sort_keys=True): k for k in kf}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']), flush=True)
    for path, conc, text in viol:
        log('violated:', text)
    # concrete violations first
    for path, conc, text in sorted(viol, key=lambda v: not v[1]):
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conc else ' no-failing-input-found'), flush=True)
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
