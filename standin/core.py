"""Building and driving the real hush binary (bounded stand-in and replay search)."""
import os, shutil, subprocess, tempfile, random, time, re, signal
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('REPO_ROOT', '/repo')

class BuildError(Exception): pass

def build(scratch):
    """Build hush from /repo's working tree in a scratch directory; returns the binary."""
    d = os.path.join(scratch, 'hushbin')
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'))
    for f in ('Cargo.toml', 'Cargo.lock'): shutil.copy(os.path.join(REPO, f), d)
    with open(os.path.join(d, 'Cargo.toml'), 'a') as f: f.write('\n[workspace]\n')
    e = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS'): e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    b = os.path.join(d, 'target/debug/hush')
    if r.returncode or not os.path.exists(b): raise BuildError(r.stdout.decode(errors='replace')[-2000:])
    return b

class Result:
    def __init__(s, code, out, err, timeout): s.code, s.out, s.err, s.timeout = code, out, err, timeout
    def __repr__(s): return 'exit=%s%s\n--stdout--\n%s\n--stderr--\n%s' % (s.code, ' TIMEOUT' if s.timeout else '', s.out[:2000].decode(errors='replace'), s.err[:2000].decode(errors='replace'))

class Ctx:
    def __init__(self, hush, scratch, seed, tier, deadline):
        self.hush, self.scratch, self.seed, self.tier, self.deadline = hush, scratch, seed, tier, deadline
        self.rng = random.Random(seed)
        self.runs = 0; self.failures = []; self.n = 0
        self.groups = {}
        self.seen = set(); self.samples = []
        self.pool = ThreadPoolExecutor(8)
    def thorough(self): return self.tier == 'thorough'
    def scale(self, quick, thorough): return thorough if self.thorough() else quick
    def left(self): return self.deadline - time.time()
    def dir(self):
        self.n += 1
        d = os.path.join(self.scratch, 'w%d' % self.n)
        os.makedirs(d)
        return d
    def run(self, script, files=None, args=(), stdin=b'', timeout=20, env=None, opts=(), d=None, keep=False, stack=None):
        """Run a script in a fresh directory; script and files are bytes or str."""
        own = d is None
        if own: d = tempfile.mkdtemp(dir=self.scratch)
        if isinstance(script, str): script = script.encode('utf-8', 'surrogateescape')
        open(os.path.join(d, 'main.hsh'), 'wb').write(script)
        for k, v in (files or {}).items():
            p = os.path.join(d, k); os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'wb').write(v.encode() if isinstance(v, str) else v)
        e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': d, 'LC_ALL': 'C', 'RUST_BACKTRACE': '0'}
        e.update(env or {})
        self.runs += 1
        h = hash((script, tuple(opts), stdin))
        if h not in self.seen:
            self.seen.add(h)
            if self.runs % 97 == 1 and len(self.samples) < 5 and len(script) < 1500: self.samples.append(script.decode('latin1'))
        cmd = [self.hush, *opts, 'main.hsh', *args]
        if stack: cmd = ['sh', '-c', 'ulimit -s %d && exec "$@"' % stack, 'sh', *cmd]
        p = subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True)
        to = False
        try: out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            try: out, err = p.communicate(timeout=5)
            except subprocess.TimeoutExpired: out, err = b'', b''
        r = Result(p.returncode, out, err, to)
        if keep: r.files = {}; 
        if keep:
            for root, _, fs in os.walk(d):
                for f in fs:
                    q = os.path.join(root, f); r.files[os.path.relpath(q, d)] = open(q, 'rb').read()
        if own: shutil.rmtree(d, ignore_errors=True)
        return r
    def fail(self, group, script, expected, got, files=None, note=''):
        if len(self.failures) < 20:
            self.failures.append(dict(group=group, script=script if isinstance(script, str) else script.decode('latin1'),
                                      expected=str(expected)[:4000], got=str(got)[:4000],
                                      files={k: (v if isinstance(v, str) else v.decode('latin1')) for k, v in (files or {}).items()}, note=note))
    def count(self, group, n=1): self.groups[group] = self.groups.get(group, 0) + n
    def map(self, group, jobs, fn):
        """fn(job) -> None or a failure tuple (script, expected, got[, files])."""
        jobs = list(jobs)
        def one(j):
            if self.left() < 0: return None
            self.count(group)
            r = fn(j)
            # a failure counts when it is seen again: the machine is shared with other checks
            return fn(j) if r is not None else None
        for r in self.pool.map(one, jobs):
            if r is not None: self.fail(group, *r)
    def expect(self, group, script, out, code=0, files=None, err_re=None, args=(), stdin=b'', timeout=20, env=None, opts=(), stack=None):
        """One script with its exact expected stdout and exit status."""
        if isinstance(out, str): out = out.encode()
        r = self.run(script, files=files, args=args, stdin=stdin, timeout=timeout, env=env, opts=opts, stack=stack)
        ok = (not r.timeout) and r.code == code and (out is None or r.out == out) and (err_re is None or re.search(err_re, r.err.decode(errors='replace')))
        if not ok: return (script, 'exit=%s stdout=%r stderr~%s' % (code, out, err_re), r, files or {})
    def table(self, group, rows, **kw):
        """rows: (script, stdout) or (script, stdout, code) or (script, stdout, code, stderr regex)."""
        def one(row):
            return self.expect(group, row[0], row[1], *(row[2:3] or [0]), err_re=row[3] if len(row) > 3 else None, **kw)
        self.map(group, rows, one)

    def values(self, group, rows, per=40, files=None):
        """rows: (expression source, printed value or 'panic:<text of the message>'), many to a script."""
        rows = list(rows)
        pre = ('function sh(v)\n if std.type(v) == "error" then\n  if v.context == "panic" then return "panic:" ++ v.description end\n end\n v\nend\n')
        def one(chunk):
            src = pre + ''.join('std.println("%d", sh(std.catch(function() return %s end)))\n' % (i, e) for i, (e, _) in enumerate(chunk))
            r = self.run(src, files=files)
            got = {}
            for l in re.split(rb'\n(?=\d+\t)', b'\n' + r.out)[1:]:
                k, _, v = l.partition(b'\t'); got[k] = v.rstrip(b'\n') if len(got) + 1 == len(chunk) else v
            for i, (e, w) in enumerate(chunk):
                g = got.get(b'%d' % i)
                w = w.encode() if isinstance(w, str) else w
                if callable(w):
                    try: ok = g is not None and w(g)
                    except ValueError: ok = False
                elif g is not None and w.startswith(b'panic:') and g.startswith(b'panic:'): ok = w[6:] in g
                else: ok = g == w
                if not ok:
                    if len(chunk) > 1: return one([(e, w)]) or (src, 'expression %s gives %s' % (e, getattr(w, '__doc__', None) if callable(w) else repr(w)), r)
                    return (src, 'expression %s gives %r' % (e, w), r)
            if r.code != 0: return (src, 'exit=0', r)
        self.map(group, [rows[i:i + per] for i in range(0, len(rows), per)], one)

PANICS = [('integer overflow', 'overflow'), ('division by zero', 'div0'), ('out of bounds', 'index'), ('collection is empty', 'empty'),
          ('which is not a function', 'call'), ('incorrect amount of function parameters', 'args'), ('is not a boolean', 'cond'),
          ('has unexpected type', 'type'), ('invalid value', 'value'), ('which is readonly', 'readonly'), ('stack overflow', 'stack'),
          ('assertion failed', 'assert'), ('std.panic(', 'user'), ('items', 'cmdargs')]
def panic_kind(text):
    if isinstance(text, bytes): text = text.decode(errors='replace')
    m = re.search(r'Panic in \S+ \(line (\d+), column \d+\): (.*)', text)
    if not m: return None
    for t, k in PANICS:
        if t in m.group(2): return k, int(m.group(1))
    return 'other', int(m.group(1))
