#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.

1. Kani discharges the contract obligations of the property (contracts/*.rs) against the
   sources extracted from /repo.
2. The bounded stand-in (standin/<property>.py) runs the real binary; it covers the
   functions no contract reaches and looks for a failing input.
Exit 0: held.  Exit 1: VIOLATION line.  Evidence: evidence/<property>.json.
"""
import importlib, json, os, re, shutil, signal, sys, tempfile, threading, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, 'tools'), os.path.join(VERIF, 'standin')]
import kani, core

TRUSTED = [
    'Kani 0.68 / CBMC 6.11 (and its SAT solver), rustc front end',
    'shims/gc stands for the gc crate (shared leaked pointers, checked cells); shims/intaglio for the interner; shims/kstd replaces HashMap/BTreeMap by association lists and thread_local! by constants',
    'shims/panic.rs stands for src/runtime/panic.rs (flat record: kind, offending type, position; message formatting dropped)',
    'contract modules are compiled into the extracted crate; function bodies are those of /repo',
]

def default_signals():
    """Ignored signals are inherited by the commands under test (nohup ignores SIGHUP): start from the defaults."""
    for s in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD):
        if signal.getsignal(s) == signal.SIG_IGN: signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])

def main():
    default_signals()
    prop = sys.argv[1]
    tier = 'thorough' if (os.environ.get('VERIF_TIER') == 'thorough' or 'thorough' in sys.argv[2:]) else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    # wall-clock limits: a check gets 900 s
    kani_budget = int(os.environ.get('KANI_BUDGET', '560' if tier == 'quick' else '3000'))
    stand_budget = 150 if tier == 'quick' else 900
    units = kani.contracts_for(prop, tier)
    scratch = tempfile.mkdtemp(prefix='hushv.')
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    rdir = os.path.join(ev, 'replay'); os.makedirs(rdir, exist_ok=True)
    box = {}
    try:
        kres = {}
        def kthread():
            try: kres.update(kani.run_units(units, kani_budget))
            except Exception: box['kerr'] = traceback.format_exc()
        # the binary first (9 s), so that both builds do not compete
        try: hush = core.build(scratch)
        except core.BuildError as e:
            print('the current tree does not build:\n' + str(e)); finish(prop, tier, seed, t0, units, {}, None, [], 'the tree does not build'); sys.exit(3)
        th = threading.Thread(target=kthread)
        if units and not os.environ.get('NO_KANI'): th.start()
        ctx = core.Ctx(hush, scratch, seed, tier, time.time() + stand_budget)
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
        if th.ident: th.join()
        if 'kerr' in box: print(box['kerr'])
        kres.pop('_wall', None)
        for v in kres.values():
            # a harness shared by several properties: each answers for its own obligations
            if v['status'] == 'failed':
                mine = [c for c in v['checks'] if c.startswith('[%s.' % prop) or not re.match(r'\[H\d\d\.', c)]
                if mine: v['checks'] = mine
                else: v['status'] = 'undecided'; v['note'] = 'fails an obligation of another property: ' + v['checks'][0]
        failed = {k: v for k, v in kres.items() if v['status'] == 'failed'}
        undecided = {k: v for k, v in kres.items() if v['status'] == 'undecided'}
        hs = {h.name: h for u in units for h in u.harnesses}
        for k, v in sorted(kres.items()):
            print('%-10s %-28s %s %s' % (v['status'], k, ('%.1fs' % v['secs']) if v.get('secs') else '', v.get('note') or ''))
        print('stand-in: %d runs of the real binary, groups %s' % (ctx.runs, json.dumps(ctx.groups)))
        if failed and not ctx.failures:
            # an obligation fails: search harder for an input that shows it
            ctx.deadline = time.time() + max(30, min(120, 860 - (time.time() - t0)))
            for extra in range(1, 6):
                if ctx.left() < 5 or ctx.failures: break
                ctx.seed = seed * 1000 + extra; ctx.rng.seed(ctx.seed)
                mod.run(ctx)
        findings = known(prop)
        fresh = []
        for f in ctx.failures:
            k = next((x for x in findings if x['status'] == 'known' and matches(x, f)), None)
            if k: k['hit'] = True
            else: fresh.append(f)
        for x in findings:
            if x['status'] == 'known':
                if reproduce(ctx, x): print('KNOWN-FINDING: property=%s %s' % (prop, x['what']))
        lines = []
        if fresh:
            f = fresh[0]
            path = os.path.join(rdir, '%s.json' % prop)
            json.dump(dict(property=prop, kind='failing input', failed_obligations={k: v['checks'] for k, v in failed.items()}, **f), open(path, 'w'), indent=1)
            sp = os.path.join(rdir, '%s.hsh' % prop)
            open(sp, 'wb').write(f['script'].encode('utf-8', 'surrogateescape'))
            print('failing input (%s):\n%s\n-- expected: %s\n-- got: %s' % (f['group'], f['script'][:3000], f['expected'], f['got']))
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        elif failed:
            path = os.path.join(rdir, '%s.json' % prop)
            json.dump(dict(property=prop, kind='failed obligation, no failing input found',
                           obligations={k: dict(claim=hs[k].claim, functions=hs[k].funcs, failed_checks=v['checks'], verifier_output=v.get('output')) for k, v in failed.items()}), open(path, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        for k, v in failed.items():
            print('FAILED OBLIGATION %s: %s\n  %s' % (k, hs[k].claim, '\n  '.join(v['checks'])))
        finish(prop, tier, seed, t0, units, kres, ctx, lines)
        for l in lines: print(l)
        sys.stdout.flush()
        ctx.pool.shutdown(wait=False)
        code = 1 if lines else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os._exit(code)

def known(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return []
    return [dict(x) for x in json.load(open(p)) if x['property'] == prop]
def matches(x, f):
    return x.get('script') is not None and x['script'] == f['script']
def reproduce(ctx, x):
    import re
    r = ctx.run(x['script'], timeout=x.get('timeout', 10))
    return (r.code == x['observed_exit'] or (r.timeout and x['observed_exit'] == 'timeout')) and re.search(x.get('observed_stderr', ''), r.err.decode(errors='replace')) is not None and x.get('observed_stdout', '') == r.out.decode(errors='replace')

def finish(prop, tier, seed, t0, units, kres, ctx, lines, note=''):
    hs = [h for u in units for h in u.harnesses]
    proved = [h for h in hs if kres.get(h.name, {}).get('status') == 'proved']
    ob = lambda l: sum((kres[h.name].get('obligations') or 0) for h in l if h.name in kres)
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'other')
    cov = dict(
        obligations=len(hs), discharged=len(proved),
        checker_cmd='cargo kani ' + ' '.join(kani.FLAGS),
        verification_conditions=ob(proved), solver_time_s=round(sum((kres[h.name].get('secs') or 0) for h in hs if h.name in kres), 1),
        back_end='Kani 0.68 (CBMC 6.11, CaDiCaL)',
        functions_under_contract=sorted({f.strip() for h in hs for f in h.funcs.split(',') if f.strip()}),
        proved_without_bound=[dict(obligation=h.name, claim=h.claim) for h in proved if not h.bound],
        bounded=[dict(obligation=h.name, claim=h.claim, bound=h.bound) for h in proved if h.bound],
        undecided=[dict(obligation=h.name, claim=h.claim, why=kres.get(h.name, {}).get('note', 'not run')) for h in hs if kres.get(h.name, {}).get('status') not in ('proved', 'failed')],
        failed=[dict(obligation=h.name, claim=h.claim, checks=kres[h.name]['checks']) for h in hs if kres.get(h.name, {}).get('status') == 'failed'],
        stand_in=dict(label='bounded, not counted as proved', runs_of_the_real_binary=ctx.runs if ctx else 0, groups=ctx.groups if ctx else {}),
        evaluations=ctx.runs if ctx else 0, distinct_nontrivial=len(ctx.seen) if ctx else 0,
        rule='stand-in: scripts generated from the seed per group, each compared with an oracle (reference interpreter or closed-form expectation); a case counts as distinct by its full text, options and input, and every one executes or checks at least one construct of the property',
        samples=ctx.samples if ctx else [],
        explanation='contract obligations on the functions above are discharged by the verifier; the bounded stand-in covers the remaining functions and supplies failing inputs',
        trusted_base=TRUSTED)
    e = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=sorted({h.assumes for h in hs if h.assumes} | {
                 'Runtime::eval_expr, where stubbed, is taken at its contract: any outcome is possible and it is the only effect of evaluating a sub-expression',
                 'source positions, messages and formatting are not part of the contracts unless stated', note} - {''}),
             wall_s=round(time.time() - t0, 1), violations=len(lines))
    json.dump(e, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__': main()
