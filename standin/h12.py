import random, itertools, fnmatch, re, os
ARGS = b'#!/bin/sh\nprintf "n=%s\\0" "$#"\nfor a in "$@"; do printf "%s\\0" "$a"; done\n'
UESC = {'n': '\n', 't': '\t', '\\': '\\'}
for c in '#\'"><?;$= ': UESC[c] = c
SESC = {"'": "'", 'n': '\n', 't': '\t', '\\': '\\'}
DESC = {'"': '"', '$': '$', 'n': '\n', 't': '\t', '\\': '\\'}
PLAIN = 'abcXYZ019_-+.,:/@!^&()|`{['      # unquoted characters that stand for themselves
def hstr(b):
    """A hush string literal."""
    return '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(c, c) for c in b.decode('latin1')) + '"'
def value(r):
    """(hush expression, text of the argument)"""
    k = r.random()
    if k < 0.55:
        b = bytes(r.choice(b'ab  \t\n*?%[]{}$"\'\\#;|&<>~=-!' + bytes(range(128, 256)) if r.random() < 0.7 else b'abc') for _ in range(r.choice([0, 1, 2, 5, 9])))
        return hstr(b), b
    if k < 0.7: n = r.choice([0, 1, -1, 42, 2**63 - 1, -2**63 + 1, r.getrandbits(40)]); return ('%d' % n if n >= 0 else '(-%d)' % -n), b'%d' % n
    if k < 0.78: return r.choice([('true', b'true'), ('false', b'false'), ('nil', b'')])
    if k < 0.88:
        c = r.choice('ab *$%[\\'); return "'%s'" % ('\\\\' if c == '\\' else c), c.encode()
    return r.choice([('1.5', b'1.5'), ('0.25', b'0.25'), ('(-2.5)', b'-2.5'), ('1000.75', b'1000.75')])
def word(r, vs, arrs, glob=False):
    """(source, list of alternatives per part); parts are bytes lists, 'STAR' or 'PCT'."""
    parts = []; src = ''
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        k = r.random()
        if k < 0.25:
            t = ''; v = ''
            for _ in range(r.randint(1, 5)):
                if r.random() < 0.2: e = r.choice(list(UESC)); t += '\\' + e; v += UESC[e]
                elif r.random() < 0.15: c = chr(r.randrange(128, 256)); t += c; v += c
                else:
                    c = r.choice(PLAIN); t += c; v += c
            if src == '' and t[0] in '|': t = 'a' + t; v = 'a' + v
            # an unquoted = (never first in a word here) is plain text in an argument
            if r.random() < 0.1: t += '='; v += '='
            src += t; parts.append([v.encode('latin1')])
        elif k < 0.45:
            t = ''; v = ''
            for _ in range(r.randint(0, 6)):
                if r.random() < 0.2: e = r.choice(list(SESC)); t += '\\' + e; v += SESC[e]
                else: c = r.choice('ab $*%"[]{}#;|<>~=?\n' + chr(200)); t += c; v += c
            src += "'" + t + "'"; parts.append([v.encode('latin1')])
        elif k < 0.7:
            src += '"'
            for _ in range(r.randint(0, 4)):
                z = r.random()
                if z < 0.35:
                    n = r.choice(list(vs)); src += '${%s}' % n; parts.append([vs[n][1]])
                elif z < 0.42 and arrs:
                    n = r.choice(list(arrs)); src += '${%s}' % n; parts.append([x[1] for x in arrs[n]])
                else:
                    for _ in range(r.randint(1, 3)):
                        if r.random() < 0.25: e = r.choice(list(DESC)); src += '\\' + e; parts.append([DESC[e].encode()])
                        else: c = r.choice("ab '*%[]{}#;|<>~=?\n" + chr(233)); src += c; parts.append([c.encode('latin1')])
            src += '"'; parts.append([b''])
        elif k < 0.9 or not arrs:
            n = r.choice(list(vs)); src += '${%s}' % n; parts.append([vs[n][1]])
        else:
            n = r.choice(list(arrs)); src += '${%s}' % n; parts.append([x[1] for x in arrs[n]])
    return src, parts
def product(parts): return [b''.join(c) for c in itertools.product(*parts)]
def run(ctx):
    # written once, before any process is started: a program file that another thread's child
    # still holds open for writing cannot be executed (text file busy)
    if not os.path.exists(os.path.join(ctx.scratch, 'args.bin')):
        with open(os.path.join(ctx.scratch, 'args.bin'), 'wb') as f: f.write(ARGS)
        os.chmod(os.path.join(ctx.scratch, 'args.bin'), 0o755)
    def go(group, src, files=None, **kw):
        # the helper must be executable
        import tempfile, shutil
        d = tempfile.mkdtemp(dir=ctx.scratch)
        os.link(os.path.join(ctx.scratch, 'args.bin'), os.path.join(d, 'args'))
        r = ctx.run(src, files=files, d=d, **kw)
        r.dir = d
        shutil.rmtree(d, ignore_errors=True)
        return r
    def parse(out):
        f = out.split(b'\0')[:-1]
        return int(f[0][2:]), f[1:]
    def words(i):
        r = random.Random('%s w %s' % (ctx.seed, i))
        vs = {'v%d' % j: value(r) for j in range(4)}
        arrs = {'r%d' % j: [value(r) for _ in range(r.choice([1, 2, 3]))] for j in range(3)}
        src = ''.join('let %s = %s\n' % (n, v[0]) for n, v in vs.items()) + ''.join('let %s = [%s]\n' % (n, ', '.join(x[0] for x in a)) for n, a in arrs.items())
        ws = [word(r, vs, arrs) for _ in range(r.randint(1, 5))]
        src += '{ ./args %s }\n' % r.choice([' ', '  ', '\n\t', ' # c } "\n']).join(w[0] for w in ws)
        x = go('words', src.encode('latin1'))
        try: n, got = parse(x.out)
        except (ValueError, IndexError): n, got = -1, []
        want = [product(p) for _, p in ws]
        flat = [a for w in want for a in w]
        ok = x.code == 0 and n == len(flat) == len(got)
        k = 0
        for (s, p), w in zip(ws, want):
            g = got[k:k + len(w)]; k += len(w)
            multi = sum(1 for q in p if len(q) > 1) > 1
            ok = ok and (sorted(g) == sorted(w) if multi else g == w)
        if not ok: return (src.encode('latin1'), 'arguments %r' % flat, x)
    ctx.map('words', range(ctx.scale(1500, 20000)), words)
    # fixed cases
    T = [('{ ./args }', []), ('{ ./args "" }', [b'']), ("{ ./args '' \"\" x '' }", [b'', b'', b'x', b'']), ('let e = "" { ./args $e }', [b'']), ('let e = "" { ./args $e$e "$e" a$e }', [b'', b'', b'a']), ('let e = nil { ./args $e }', [b'']), ('let a = [] { ./args $a }', []), ('let a = [] { ./args x $a y }', [b'x', b'y']),
         ('let a = ["", ""] { ./args $a }', [b'', b'']), ('let a = ["x y", "*", "$b"] { ./args $a }', [b'x y', b'*', b'$b']), ('let a = [1, 2.5, true, nil, \'c\', "s"] { ./args $a }', [b'1', b'2.5', b'true', b'', b'c', b's']), ('let a = ["p", "q"] { ./args pre-$a.txt }', [b'pre-p.txt', b'pre-q.txt']),
         ('let a = ["1", "2"] let b = ["x", "y", "z"] { ./args $a-$b }', sorted([p + b'-' + q for p in (b'1', b'2') for q in (b'x', b'y', b'z')])), ('let s = "a b\tc\nd" { ./args $s }', [b'a b\tc\nd']), ('let s = "*" { ./args $s "*" \'*\' }', [b'*', b'*', b'*']), ('let s = "?[a]*%" { ./args $s }', [b'?[a]*%']), ('{ ./args [a] {x,y} a[ ] { "b]" }', [b'[a]', b'{x,y', b'a[', b']', b'{', b'b]']) if False else ('{ ./args [a] a[ ] }', [b'[a]', b'a[', b']']),
         ('let s = "~/x" { ./args $s \'~/x\' "~/x" a~/x ~x }', [b'~/x', b'~/x', b'~/x', b'a~/x', b'~x']), ('{ ./args a=b x=1 =y "="z }', [b'a=b', b'x=1', b'=y', b'=z']), ('{ ./args -n --flag=x -- }', [b'-n', b'--flag=x', b'--']), ('{ ./args a\\ b a\\;b \\#c \\"q\\" \\\'s \\$v \\\\ \\n|x }', [b'a b', b'a;b', b'#c', b'"q"', b"'s", b'$v', b'\\', b'\n|x']),
         ('let x = 5 { ./args $x${x}y "$x$x" }', [b'5', b'5y', b'55']) if False else ('let x = 5 { ./args ${x}y "$x$x" $x-$x }', [b'5y', b'55', b'5-5']), ('let p = "./args" { $p a }', [b'a']), ('let i = -9223372036854775807 - 1 { ./args $i }', [b'-9223372036854775808'])]
    def fixed(t):
        x = go('fixed', t[0])
        try: n, got = parse(x.out)
        except (ValueError, IndexError): n, got = -1, None
        if x.code != 0 or got is None or n != len(got) or sorted(got) != sorted(t[1]) or ('let b' not in t[0] and got != t[1]): return (t[0], 'arguments %r' % t[1], x)
    ctx.map('fixed words', T, fixed)
    # home
    def home(t):
        import tempfile
        x = go('home', '{ ./args %s }' % t[0], env={'HOME': '/h m/*'})
        n, got = parse(x.out) if x.out else (-1, [])
        if got != t[1]: return ('{ ./args %s }' % t[0], t[1], x)
    ctx.map('home', [('~/', [b'/h m/*/']), ('~/a "~/b" c~/', [b'/h m/*/a', b'~/b', b'c~/'])], home)
    # patterns
    NAMES = ['a', 'b', 'ab', 'abc', 'a.txt', 'b.txt', 'a b', 'a*b', 'a?b', 'a[b]', '[x]', ']', 'x]y', '[', 'star*', 'q?', '-n', 'é', 'aéb', 'A', 'x-y', '!z', '^w', 'p$q', "it's", 'two  spaces', 'n\nl', '*', '?', 'a\\b', '{k}', '#h', '~t', 'a=b']
    def match(pat, name):
        rx = ''.join('[^/]*' if p == 'STAR' else '[^/]' if p == 'PCT' else re.escape(p) for p in pat)
        return re.fullmatch(rx, name, re.S)
    def globs(i):
        r = random.Random('%s g %s' % (ctx.seed, i))
        names = r.sample(NAMES, r.randint(0, 14)) + ['args', 'main.hsh']
        base = r.choice(NAMES)
        pats = [[]]; src = ''; decl = ''; n = 0; stars = 0; inq = False
        cut = sorted(r.sample(range(len(base) + 1), min(r.randint(0, 3), len(base))))
        segs = [base[a:b] for a, b in zip([0] + cut, cut + [len(base)])]
        for j, s in enumerate(segs):
            last = pats[0][-1] if pats[0] else None
            if j and last != 'STAR':
                w = r.choice(['STAR', 'STAR', 'PCT'])
                src += '*' if w == 'STAR' else '%'; pats = [p + [w] for p in pats]
                if w == 'PCT' and s: s = s[1:]
                elif w == 'STAR' and s and r.random() < 0.5: s = s[r.randint(0, len(s)):]
            if not s: continue
            k = r.random()
            if k < 0.3: src += "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"; pats = [p + [s] for p in pats]
            elif k < 0.5: src += '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('$', '\\$') + '"'; pats = [p + [s] for p in pats]
            elif k < 0.8: n += 1; decl += 'let w%d = "%s"\n' % (n, s.replace('\\', '\\\\').replace('"', '\\"')); src += '${w%d}' % n; pats = [p + [s] for p in pats]
            elif k < 0.9: n += 1; o = r.choice(['zz', 'a', '*', '[']); decl += 'let w%d = ["%s", "%s"]\n' % (n, s.replace('\\', '\\\\').replace('"', '\\"'), o); src += '${w%d}' % n; pats = [p + [s] for p in pats] + [p + [o] for p in pats]
            else:
                src += ''.join(c if c in 'abcxyAt.-n' else "'%s'" % c.replace('\\', '\\\\').replace("'", "\\'") for c in s); pats = [p + [s] for p in pats]
        if not any(q in ('STAR', 'PCT') for p in pats for q in p): src += '*'; pats = [p + ['STAR'] for p in pats]
        if src.startswith(('|', '#')): return None
        text = decl + '{ ./args %s }\n' % src
        x = go('patterns', text, files={q: b'' for q in names if q not in ('args', 'main.hsh')})
        want = [[('./' + q).encode() for q in names if match(p, q)] for p in pats]
        try: k, got = parse(x.out)
        except (ValueError, IndexError): k, got = -1, None
        if x.code != 0 or got is None or sorted(got) != sorted(a for w in want for a in w): return (text + '\n# files: %r' % names, 'arguments %r' % want, x)
    ctx.map('patterns', range(ctx.scale(700, 8000)), globs)
    # values without a text form: panic and nothing runs
    P = []
    for v in ('@[]', '@[a: 1]', 'function() end', 'std.error("a", 1)', '[[1]]', '[1, @[]]', '["a", function() end]', 'std.print'):
        for cmd in ('touch ran $v', 'touch ran "x${v}"', 'touch ran a${v}b', 'touch ran; ./args $v', 'touch ran > $v', 'touch ran < $v', 'touch ran << $v', 'X=$v touch ran', 'touch ran | ./args $v', 'cd $v'):
            for b in ('{ %s }', '${ %s }') if cmd != 'cd $v' else ('{ %s }',): P.append('let v = %s\nlet q = std.catch(function() %s end)\nstd.println(std.type(q), q.context == "panic")\n' % (v, b % cmd))
    def notext(src):
        x = go('no text form', src + 'let d = ${ ls }\nstd.println(d.stdout)')
        if x.code != 0 or not x.out.startswith(b'error\ttrue\n') or b'ran' in x.out.split(b'\n', 1)[1]: return (src, 'panic, and the command does not run', x)
    ctx.map('no text form', P if ctx.thorough() else P[::1], notext)
    ctx.table('several items', [('let a = ["p", "q"]\n{ echo x > $a }\n', '', 127, 'items'), ('let a = []\n{ $a }\n', '', 127, 'items'), ('let a = ["p", "q"]\n{ X=$a true }\n', '', 127, 'items'), ('let a = ["p", "q", "r"]\n{ cat < $a }\n', '', 127, '3'), ('let a = ["p", "q"]\n{ $a }\n', '', 127, '2')])
