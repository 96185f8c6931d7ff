"""Extraction of the real sources for Kani, and the obligation runner.

Extraction (redone on every run, from /repo's working tree, into a scratch directory):
  1. src/, Cargo.toml and Cargo.lock are copied.
  2. In every source file the path prefix `std::` is rewritten to `kstd::` (a crate that
     re-exports std and replaces the parts listed in shims/kstd) and `thread_local!` to
     `kstd::thread_local!`.
  3. src/runtime/panic.rs is replaced by shims/panic.rs (flat struct, same constructors).
  4. The crates gc, gc_derive, intaglio (and os_pipe, glob where a contract asks for it) are
     patched to the stand-ins in shims/.
  5. The contract modules are appended as `#[cfg(kani)] #[path=...] mod ...;`.
Nothing else is changed: function bodies reach the verifier as they are in /repo.
"""
import os, re, resource, shutil, subprocess, tempfile, time, json
VERIF = os.environ.get('VERIF_ROOT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO_ROOT', '/repo')

MEM = 12 << 30

class Harness:
    def __init__(s, **k): s.__dict__.update(k)

def parse_contract(path):
    """Read the //@ annotations of a contract file."""
    text = open(path).read()
    mod = re.search(r'^//@ module:\s*(\S+)', text, re.M).group(1)
    shims = re.findall(r'^//@ shim:\s*(\S+)', text, re.M)
    hs = []
    for m in re.finditer(r'^\s*//@ harness\s+(\w+)\s+property=(\S+)(?:\s+tier=(\w+))?\s*\n((?:\s*//@ +(?!harness)\w[^\n]*\n)*)', text, re.M):
        attrs = dict(re.findall(r'//@ +(\w+):\s*([^\n]*)', m.group(4)))
        hs.append(Harness(name=m.group(1), props=m.group(2).split(','), tier=m.group(3) or 'quick',
                          claim=attrs.get('claim', ''), bound=attrs.get('bound'), funcs=attrs.get('functions', ''),
                          assumes=attrs.get('assumes', ''), cbmc=attrs.get('cbmc', ''), file=path, module=mod))
    return Harness(path=path, module=mod, shims=shims, harnesses=hs, name='verif_' + os.path.basename(path)[:-3])

def contracts_for(prop, tier):
    out = []
    d = os.path.join(VERIF, 'contracts')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.rs') or f.startswith('_'): continue
        u = parse_contract(os.path.join(d, f))
        u.harnesses = [h for h in u.harnesses if prop in h.props and (tier == 'thorough' or h.tier == 'quick')]
        if u.harnesses: out.append(u)
    return out

def extract(dest, units):
    os.makedirs(dest)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dest, 'src'))
    for f in ('Cargo.toml', 'Cargo.lock'):
        shutil.copy(os.path.join(REPO, f), dest)
    for root, _, files in os.walk(os.path.join(dest, 'src')):
        for f in files:
            if f.endswith('.rs'):
                p = os.path.join(root, f)
                s = open(p, errors='surrogateescape').read()
                t = re.sub(r'(?<![:\w$])std::', 'kstd::', s)
                t = re.sub(r'(?<![:\w])thread_local!', 'kstd::thread_local!', t)
                if t != s: open(p, 'w', errors='surrogateescape').write(t)
    shutil.copy(os.path.join(VERIF, 'shims/panic.rs'), os.path.join(dest, 'src/runtime/panic.rs'))
    shims = {'gc', 'gc_derive', 'intaglio'}
    for u in units:
        shims |= set(u.shims)
        p = os.path.join(dest, u.module)
        with open(p, 'a') as f:
            f.write('\n#[cfg(kani)] #[path = "%s"] mod %s;\n' % (u.path, u.name))
    with open(os.path.join(dest, 'Cargo.toml'), 'a') as f:
        f.write('\n[dependencies.kstd]\npath = "%s/shims/kstd"\n' % VERIF)
        f.write('[workspace]\n[patch.crates-io]\n')
        for s in sorted(shims): f.write('%s = { path = "%s/shims/%s" }\n' % (s, VERIF, s))

FLAGS = ['-Z', 'stubbing', '-Z', 'unstable-options', '--no-memory-safety-checks', '--no-overflow-checks', '--no-assertion-reach-checks']
# failed checks that mean "the tool could not decide", not "the obligation fails"
UNDECIDED = re.compile(r'unwinding assertion|not currently supported|is not supported|unsupported|unimplemented by the stand-in|'
                       r'recursion unwinding|call to foreign|reached unstable|MODEL:', re.I)

def env():
    e = dict(os.environ)
    e.pop('CARGO_TARGET_DIR', None); e.pop('RUSTFLAGS', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.setdefault('CARGO_TERM_COLOR', 'never')
    return e

def limit():
    # one runaway obligation must not take the machine down: it ends undecided
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))

def run_units(units, budget, jobs=8, log=print):
    """Returns {harness: dict(status=proved|failed|undecided, checks=[...], secs=.., note=..)}."""
    scratch = tempfile.mkdtemp(prefix='hushk.')
    res = {}
    try:
        d = os.path.join(scratch, 'hush')
        t0 = time.time()
        res = _run(d, units, budget, jobs, log)
        if res is None:            # joint compilation failed: one unit at a time
            res = {}
            for u in units:
                left = budget - (time.time() - t0)
                r = None
                if len(units) > 1 and left > 60:
                    shutil.rmtree(os.path.join(d, 'src'), ignore_errors=True)
                    keep = os.path.join(scratch, 'target')
                    if os.path.isdir(os.path.join(d, 'target')): shutil.move(os.path.join(d, 'target'), keep)
                    shutil.rmtree(d, ignore_errors=True)
                    r = _run(d, [u], left, jobs, log, keep)
                if r is None:
                    r = {h.name: dict(status='undecided', note='contract module no longer compiles against the changed code', checks=[], secs=0)
                         for h in u.harnesses}
                res.update(r)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res

def _invoke(d, units, budget, jobs):
    t0 = time.time()
    hs = [h for u in units for h in u.harnesses]
    out = ''
    # harnesses that need other CBMC options go in a run of their own (the compilation is shared)
    for args in sorted({h.cbmc for h in hs}):
        left = budget - (time.time() - t0)
        if left < 30: break
        cmd = ['cargo', 'kani'] + FLAGS + ['-j', str(jobs), '--output-format', 'terse', '--harness-timeout', '%ds' % max(30, int(left - 60)), '--exact']
        for u in units:
            modpath = u.module[len('src/'):-len('.rs')].replace('/', '::')
            modpath = re.sub(r'::mod$', '', modpath); modpath = '' if modpath == 'main' else modpath + '::'
            for h in u.harnesses:
                if h.cbmc == args: cmd += ['--harness', modpath + u.name + '::' + h.name]
        if args: cmd += ['--cbmc-args'] + args.split()
        out_path = os.path.join(d, 'kani.out')
        with open(out_path, 'w') as f:
            p = subprocess.Popen(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=env(), start_new_session=True, preexec_fn=limit)
            try: p.wait(timeout=max(left, 1))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait()
        out += open(out_path, errors='replace').read()
    if os.environ.get('KANI_LOG'): open(os.environ['KANI_LOG'], 'w').write(out)
    return out

def _verdicts(out, hs):
    res = {}
    # per-thread streams
    cur = {}; bodies = {}
    for line in out.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', line)
        if m:
            cur[m.group(1)] = m.group(2).split('::')[-1]; continue
        m = re.match(r'Thread (\d+): ?(.*)', line)
        if m: last = m.group(1); text = m.group(2)
        else: last = None if not cur or None in cur else locals().get('last'); text = line
        name = cur.get(last)
        if name: bodies.setdefault(name, []).append(text)
    for h in hs:
        body = '\n'.join(bodies.get(h.name, []))
        failed = [(a.strip('"'), b) for a, b in re.findall(r'Failed Checks: (.*)\n(?:\s*File: (.*))?', body)]
        t = re.search(r'Verification Time: ([\d.]+)s', body)
        secs = float(t.group(1)) if t else None
        n = re.search(r'\*\* (\d+) of (\d+) failed', body)
        d_ = dict(checks=[], secs=secs, note='', obligations=int(n.group(2)) if n else None)
        if 'VERIFICATION:- SUCCESSFUL' in body:
            d_['status'] = 'proved'
            c = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', body)
            if c and c.group(1) != c.group(2): d_['status'] = 'undecided'; d_['note'] = 'vacuity guard: a cover point is unreachable'
        elif 'VERIFICATION:- FAILED' in body and failed:
            # an obligation is a named postcondition, or the absence of a Rust panic in hush's own code
            isreal = lambda a, b: not UNDECIDED.search(a) and (a.startswith('[') or (b or '').startswith('"src/'))
            real = [(a, b) for a, b in failed if isreal(a, b)]
            und = [a + ' @ ' + b for a, b in failed if not isreal(a, b)]
            if real and not und:
                d_['status'] = 'failed'; d_['checks'] = ['%s (%s)' % (a, b) for a, b in real]
            elif real:
                d_['status'] = 'failed' if any(a.startswith('[') for a, b in real) else 'undecided'
                d_['checks'] = ['%s (%s)' % (a, b) for a, b in real]; d_['note'] = 'also undecided: ' + '; '.join(und[:3])
            else:
                d_['status'] = 'undecided'; d_['note'] = 'verifier gave up: ' + '; '.join(und[:3])
        else:
            d_['status'] = 'undecided'; d_['note'] = 'no verdict (time, memory or tool error)'
        d_['output'] = body[-3000:]
        res[h.name] = d_
    return res

def _run(d, units, budget, jobs, log, target=None, confirm=True):
    extract(d, units)
    if target and os.path.isdir(target): shutil.move(target, os.path.join(d, 'target'))
    t0 = time.time()
    hs = [h for u in units for h in u.harnesses]
    out = _invoke(d, units, budget, jobs)
    if 'Checking harness' not in out:
        log('kani: no harness was reached (compilation failed?)')
        errs = [l for l in out.splitlines() if l.startswith('error')]
        log('\n'.join(errs[:10]))
        if time.time() - t0 > budget - 5:
            return {h.name: dict(status='undecided', note='out of time while compiling', checks=[], secs=0) for h in hs}
        return None
    res = _verdicts(out, hs)
    if confirm:
        bad = [n for n, v in res.items() if v['status'] == 'failed']
        left = budget - (time.time() - t0)
        if bad and left > 60:
            # CBMC's simplifier has a known defect on arrays inside unions: a failed obligation
            # is confirmed without it, and is undecided when the two runs disagree
            us = []
            for u in units:
                k = Harness(**u.__dict__); k.harnesses = [Harness(**{**h.__dict__, 'cbmc': '--no-simplify'}) for h in u.harnesses if h.name in bad and not h.cbmc]
                us.append(k)
            if any(u.harnesses for u in us):
                again = _invoke(d, us, min(left, 200), jobs)
                for n, v in _verdicts(again, [h for u in us for h in u.harnesses]).items():
                    if v['status'] == 'proved': res[n]['status'] = 'undecided'; res[n]['note'] = 'the verifier contradicts itself (simplifier)'
    res['_wall'] = dict(status='info', secs=time.time() - t0)
    return res

if __name__ == '__main__':
    import sys
    prop = sys.argv[1]; only = sys.argv[2:]
    us = contracts_for(prop, 'thorough')
    if only:
        for u in us: u.harnesses = [h for h in u.harnesses if h.name in only]
        us = [u for u in us if u.harnesses]
    t = time.time()
    r = run_units(us, int(os.environ.get("BUDGET", "800")), int(os.environ.get("JOBS", "8")))
    for k, v in r.items():
        print(k, v['status'], v.get('secs'), v.get('obligations'), v.get('note'), *v.get('checks', []), sep=' | ')
    print('wall', time.time() - t)
