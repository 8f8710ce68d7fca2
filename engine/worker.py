"""Verify one contract in its own process: python worker.py OUT.json CONTRACT BUDGET IR..."""
import json, os, resource, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def cover_labels(prog, ex, contract):
    """labels of the vf_reach calls in the functions that were executed"""
    out = []
    for name in {contract} | set(ex.called):
        fn = prog.function(name)
        if fn is None or fn.mod is not prog.function(contract).mod:
            continue
        for b in fn.blocks:
            for i in fn.block(b):
                if i.op in ('call', 'invoke') and i.a[0] == ('glob', 'vf_reach'):
                    g = i.a[1][0][1]
                    if g[0] == 'glob':
                        c = fn.mod.global_init(g[1])[2]
                        if c[0] == 'cstr':
                            out.append(c[1].replace('\\00', ''))
    return out


def verify(contract, irs, budget, opts=None):
    import z3
    import ir, sym, models, prove
    t0 = time.time()
    out = dict(contract=contract, status='ok', obligations=[], covers={}, functions=[], trusted=[], paths=0)
    try:
        prog = ir.Program(irs)
        ex = sym.Executor(prog, opts or {})
        ex.deadline = t0 + budget * 0.7
        models.install(ex)
        try:
            import extra_models
            extra_models.install(ex)
        except ImportError:
            pass
        ex.run(contract)
    except sym.Unsupported as e:
        out['status'] = 'unsupported'
        out['reason'] = str(e)[:500]
        out['where'] = getattr(e, 'where', [])
    except ir.IRError as e:
        out['status'] = 'unsupported'
        out['reason'] = 'IR: ' + str(e)[:500]
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, AssertionError, RecursionError, MemoryError, ValueError) as e:
        out['status'] = 'unsupported'
        out['reason'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
        out['trace'] = traceback.format_exc()[-3000:]
    out['exec_s'] = round(time.time() - t0, 2)
    out['paths'] = ex.stats['paths']
    out['instr'] = ex.stats['instr']
    fns = sym.demangle(list(ex.called))
    out['functions'] = sorted({f for f in fns if 'geometrycentral' in f and not f.startswith('std::')})
    out['trusted'] = sorted(ex.trusted)
    ts = time.time()
    seen = {}
    n = 0
    bad = 0
    for ob in ex.obligations:
        goals = [ob.goal]
        if z3.is_and(ob.goal):
            goals = list(ob.goal.children())
        for g in goals:
            key = (g.get_id(), tuple(c.get_id() for c in ob.path), ob.label)
            if key in seen:
                continue
            seen[key] = 1
            o2 = sym.Obligation(ob.label, ob.path, g, ob.kind, ob.where)
            n += 1
            left = t0 + budget - time.time()
            if left < 1:
                out['obligations'].append(dict(label=ob.label, kind=ob.kind, status='unknown', backend='none', t=0, detail='time budget', where=ob.where))
                continue
            try:
                r = prove.discharge(o2, ex.inputs, budget=int(max(2, min(60 if not bad else 6, left / 2))))
            except (z3.Z3Exception, RecursionError) as e:
                r = prove.Result('unknown', 'error', 0, None, str(e)[:200])
            d = dict(label=ob.label, kind=ob.kind, status=r.status, backend=r.backend, t=round(r.time, 3))
            if r.status != 'proved':
                bad += 1
                d['where'] = ob.where
                d['detail'] = r.detail
                d['model'] = r.model
                d['goal'] = str(g)[:1500]
                d['path'] = [str(c)[:400] for c in ob.path[-25:]]
            out['obligations'].append(d)
    if out['status'] == 'ok':
        for k in cover_labels(prog, ex, contract):
            if k not in ex.covers:
                out['covers'][k] = 'unsat'      # never reached on any path
        for k, ps in ex.covers.items():
            out['covers'][k] = prove.reachable(ps)
        if not ex.covers:
            # the end of the contract must be reachable
            out['covers']['<end>'] = prove.reachable([s.path for _, s in ex.ended]) if ex.ended else 'unsat'
    out['solve_s'] = round(time.time() - ts, 2)
    out['wall_s'] = round(time.time() - t0, 2)
    return out


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    outp, contract, budget = sys.argv[1], sys.argv[2], float(sys.argv[3])
    r = verify(contract, sys.argv[4:], budget)
    json.dump(r, open(outp, 'w'), indent=1)
