import random, os
OE = "sh -c 'printf O%d; printf E%d >&2; printf P%d'"
def data(r, n): return bytes(r.getrandbits(8) for _ in range(min(n, 4096))) * (n // 4096 + 1)
def split(x, cap):
    if cap and x.code == 0 and not x.err: x.out, _, x.err = x.out.rpartition(b'|-ERR-|')
    return x
def run(ctx):
    # redirections apply in order: simulate the files
    def redir(i):
        r = random.Random('%s r %s' % (ctx.seed, i))
        files = {'f%d' % j: bytes(r.choice(b'xyz') for _ in range(r.choice([0, 3, 9]))) for j in range(2)}
        fs = {k: bytearray(v) for k, v in files.items()}; out = bytearray(); err = bytearray()
        cap = r.random() < 0.5
        src = []
        for c in range(r.randint(1, 4)):
            h1 = ['o']; h2 = ['e']
            ops = []; inp = None
            for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
                k = r.choice(['>', '>>', '2>', '2>>', '2>1', '1>2', '1>', '1>>', '<', '<<'])
                if k in ('2>1', '1>2'):
                    ops.append(k)
                    if k == '2>1': h2 = h1
                    else: h1 = h2
                    continue
                if k == '<': s = r.choice(sorted(fs)); ops.append('< ' + s); inp = bytes(fs[s]); continue
                if k == '<<': ops.append("<< 'lit %d'" % c); inp = b'lit %d\n' % c; continue
                s = 'f%d' % r.randint(0, 3)
                sp = r.choice([' ', '']); ops.append(k + sp + s)
                fs.setdefault(s, bytearray())
                if not k.endswith('>>'): del fs[s][:]
                h = ['f', s, k.endswith('>>'), 0]
                if k[0] == '2': h2 = h
                else: h1 = h
                if inp is not None and False: pass
            def wr(h, b):
                if h[0] == 'o': out.extend(b)
                elif h[0] == 'e': err.extend(b)
                else:
                    f = fs[h[1]]
                    if h[2]: f.extend(b)
                    else:
                        if len(f) < h[3]: f.extend(b'\0' * (h[3] - len(f)))
                        f[h[3]:h[3] + len(b)] = b; h[3] += len(b)
            if inp is not None and '<' in ''.join(o[0] for o in ops) :
                # a file being read may also be written by this command: only read it when it is not
                tgt = {o.split()[-1].lstrip('12>') for o in ops if '>' in o}
                last = [o for o in ops if o[0] == '<'][-1]
                if last.startswith('< ') and last[2:] in tgt: cmd = OE % (c, c, c); rd = False
                else: cmd = "sh -c 'printf O%d; printf E%d >&2; printf P%d; cat'" % (c, c, c); rd = True
            else: cmd = OE % (c, c, c); rd = False
            wr(h1, b'O%d' % c); wr(h2, b'E%d' % c); wr(h1, b'P%d' % c)
            if rd: wr(h1, inp)
            src.append(cmd + ' ' + ' '.join(ops))
        blk = ';\n'.join(src)
        text = 'let c = ${ %s }\nstd.print(c.stdout)\nstd.print("|-ERR-|")\nstd.print(c.stderr)\n' % blk if cap else '{ %s }\n' % blk
        x = split(ctx.run(text, files=files, keep=True), cap)
        got = {k: v for k, v in x.files.items() if k != 'main.hsh'}
        if x.timeout or x.code != 0 or x.out != bytes(out) or x.err != bytes(err) or got != {k: bytes(v) for k, v in fs.items()}:
            return (text, 'stdout %r stderr %r files %r' % (bytes(out), bytes(err), {k: bytes(v) for k, v in fs.items()}), '%s\nfiles %r' % (x, got), files)
    ctx.map('redirections', range(ctx.scale(700, 8000)), redir)
    # pipelines carry all bytes
    def pipe(i):
        r = random.Random('%s p %s' % (ctx.seed, i))
        n = r.choice([0, 1, 10, 1000, 65536, 65537, 200000, 1000000])
        d = data(r, n)[:n]
        src = r.choice(['stdin', 'file', 'redir', 'echo'])
        head = {'stdin': 'cat', 'file': 'cat in', 'redir': 'cat < in', 'echo': 'cat in'}[src]
        cmds = [head]; e = b''; cur = d; errs = []
        for j in range(r.randint(0, 4)):
            k = r.choice(['cat', 'tr', 'err', 'head', 'drop', 'wc'])
            if k == 'cat': cmds.append('cat')
            elif k == 'tr': cmds.append("tr a-y b-z"); cur = bytes(c + 1 if 97 <= c <= 121 else c for c in cur)
            elif k == 'err': cmds.append("sh -c 'cat; printf e%d >&2'" % j); errs.append(b'e%d' % j)
            elif k == 'head': cmds.append('head -c 100'); cur = cur[:100]; cmds[-1] = "sh -c 'head -c 100; cat > /dev/null'"
            elif k == 'drop': cmds.append("sh -c 'cat > side%d; echo done%d'" % (j, j)); cur = b'done%d\n' % j
            elif k == 'wc': cmds.append('wc -c'); cur = b'%d\n' % len(cur)
        cap = r.random() < 0.6
        text = ('let c = ${ %s }\nstd.print(c.stdout)\nstd.print("|-ERR-|")\nstd.print(c.stderr)\n' if cap else '{ %s }\n') % ' | '.join(cmds)
        x = split(ctx.run(text, files={'in': d}, stdin=d if src == 'stdin' else b'', timeout=30), cap)
        import re
        toks = sorted(re.findall(rb'e\d', x.err))
        if x.timeout or x.code != 0 or x.out != cur or toks != sorted(errs) or len(x.err) != 2 * len(errs): return (text, 'the %d bytes %r..., stderr %r' % (len(cur), cur[:40], errs), x)
    ctx.map('pipelines', range(ctx.scale(250, 3000)), pipe)
    # captures: any amount, any interleaving, with and without failure
    def capt(i):
        r = random.Random('%s c %s' % (ctx.seed, i))
        no = r.choice([0, 1, 500, 70000, 300000]); ne = r.choice([0, 1, 500, 70000, 300000])
        o = data(r, no)[:no]; e = data(r, ne)[:ne]
        fail = r.choice(['', '', '; exit 3'])
        body = r.choice(['cat o; cat e >&2', 'cat e >&2; cat o', 'cat o & cat e >&2; wait', '(cat e >&2) | cat o'])
        two = r.random() < 0.3
        cmd = "sh -c '%s%s'" % (body, fail)
        text = 'let c = ${ %s%s }\nlet t = if std.type(c) == "error" then c.context else c end\nstd.println(std.type(c), std.len(t.stdout), std.len(t.stderr))\nstd.print(t.stdout)\nstd.print(t.stderr)\n' % (cmd, '; ' + cmd if two else '')
        m = 2 if two and not fail else 1
        x = ctx.run(text, files={'o': o, 'e': e}, timeout=30)
        want = b'%s\t%d\t%d\n' % (b'error' if fail else b'dict', m * no, m * ne) + o * m + e * m
        if x.timeout or x.code != 0 or x.out != want or x.err: return (text, 'captured %d and %d bytes, type %s' % (m * no, m * ne, 'error' if fail else 'dict'), x)
    ctx.map('captures', range(ctx.scale(150, 1500)), capt)
    # << text of any size and content
    def lit(i):
        r = random.Random('%s l %s' % (ctx.seed, i))
        n = r.choice([0, 1, 5, 4096, 65535, 65536, 65537, 300000]); d = bytes(r.choice(b'ab \n\t*$"\\' + bytes([200, 255])) for _ in range(min(n, 1000))) * (n // 1000 + 1); d = d[:n]
        lt = '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(c, c) for c in d.decode('latin1')) + '"'
        k = r.choice(['{ cat << $s }', '{ cat << "$s" | cat }', 'let c = ${ cat << $s }\nstd.print(c.stdout)', '{ cat << $s; cat << $s }', "{ sh -c 'sleep 0.05; cat' << $s }"])
        text = 'let s = %s\n%s\n' % (lt, k)
        x = ctx.run(text.encode('latin1'), timeout=30)
        want = (d + b'\n') * (2 if '; cat' in k and 'sleep' not in k else 1)
        if x.timeout or x.code != 0 or x.out != want: return (text[:3000], 'the %d bytes followed by a newline' % n, x)
    ctx.map('literal input', range(ctx.scale(80, 800)), lit)
    ctx.table('literal input', [('let s = "' + 'x' * 500000 + '"\n{ true << $s; echo on }', 'on\n'), ('{ cat << "" }', '\n'), ("{ cat << 'a b' }", 'a b\n'), ('{ cat << one << two }', 'two\n'), ('let n = 42 { cat << $n }', '42\n')], timeout=30)
    # environment assignments
    P = "printf \"[%s]\" \"$X\""
    def env(row): return ctx.expect('environment', row[0], row[1], env={'X': 'outer', 'Y': 'y'})
    S = "sh -c 'printf \"[%s.%s]\" \"$X\" \"$Y\"'"
    ctx.map('environment', [
      ('{ %s }' % S, '[outer.y]'), ('{ X=1 %s }' % S, '[1.y]'), ('{ X=1 %s; %s }' % (S, S), '[1.y][outer.y]'), ('{ X=1 Y=2 %s; Y=3 %s; %s }' % (S, S, S), '[1.2][outer.3][outer.y]'), ('{ X= %s }' % S, '[.y]'), ('let v = "a b*" { X=$v Y="q$v" %s }' % S, '[a b*.qa b*]'), ('{ X=a=b %s }' % S, '[a=b.y]'),
      ("{ X=1 sh -c 'cat > /dev/null; printf \"[%%s]\" \"$X\"' | %s }" % S, '[outer.y]'), ("{ X=1 sh -c 'printf \"[%%s]\" \"$X\"' | sh -c 'cat; printf \"[%%s]\" \"$X\"' }".replace('%%', '%'), '[1][outer]'), ("{ sh -c 'printf \"[%s]\" \"$X\"' | X=2 sh -c 'cat; printf \"[%s]\" \"$X\"' }", '[outer][2]'), ('let k = "X" { $k=7 %s }' % S, '[7.y]'), ("{ %s X=5 }" % S, '[outer.y]'), ('{ X=1 X=2 %s }' % S, '[2.y]')], env)
    # only the last command writes to the output of the block; streams are inherited
    ctx.table('streams', [
      ("{ sh -c 'echo a; echo b >&2' | sh -c 'cat > /dev/null; echo c' }", 'c\n', 0, '^b$'), ("{ echo a | cat > f; cat f }", 'a\n'), ("{ echo a > f | cat; cat f }", 'a\n'), ("{ echo a | cat | cat | cat }", 'a\n'), ("{ echo a; echo b | cat; echo c }", 'a\nb\nc\n'), ("{ sh -c 'echo e >&2' 2>1 | cat }", 'e\n'), ("{ sh -c 'echo e >&2' 2>1 | tr e f }", 'f\n'),
      ("{ sh -c 'echo o; echo e >&2' 1>2 | cat }", '', 0, '^o\ne$'), ("let c = ${ sh -c 'echo e1 >&2' | sh -c 'echo e2 >&2' | sh -c 'cat; echo o' } std.println(c.stdout, std.len(c.stderr))", 'o\n\t6\n'), ("let c = ${ sh -c 'echo o; echo e >&2' 2>1 } std.print(c.stdout, c.stderr)", 'o\ne\n\t'), ("let c = ${ sh -c 'echo o; echo e >&2' 2>1 1>2 } std.println(c.stdout)", 'o\ne\n\n'),
      ("let c = ${ sh -c 'echo o; echo e >&2' 1>2 2> /dev/null } std.println(c.stderr)", 'o\n\n'), ("std.println(${ echo a }.stdout, ${ echo b | cat }.stdout)", 'a\n\tb\n\n'), ("{ cat }", 'IN'), ("{ cat; cat }", 'IN'), ("{ cat | cat }", 'IN'), ("let c = ${ cat } std.print(c.stdout)", 'IN')], stdin=b'IN')
