import random
import lang
MIN, MAX = -2**63, 2**63 - 1
def il(v): return str(v) if v >= 0 else ('(-%d)' % -v if v > MIN else '(-9223372036854775807 - 1)')
def fl(v): return repr(v) if v >= 0 else '(%r)' % v
def ref(a, b, s, n):
    out = []
    while len(out) < n and (a < b if s > 0 else a > b): out.append(a); a += s
    return out
PRE = '''function show(it, max)
	let n = 0
	let out = []
	for x in it do
		if n == max then break end
		std.push(out, x)
		n = n + 1
	end
	std.println(n, out)
end
function fin(it)
	let r = it()
	std.println(r.finished, std.contains(r, "value"))
end
'''
def arr(l): return '[ ' + ', '.join(l) + ' ]' if l else '[ ]'
def run(ctx):
    # int ranges
    def ints(i):
        r = random.Random('%s i %s' % (ctx.seed, i)); src = PRE; out = ''
        for _ in range(12):
            M = 12
            k = r.random()
            if k < 0.3: a, b, s = r.randint(-20, 20), r.randint(-20, 20), r.choice([1, 2, 3, 7, -1, -2, -3, -7, 100, -100])
            elif k < 0.6:
                a = r.choice([MAX, MIN]) + 0; d = r.randint(0, 25); a = a - d if a > 0 else a + d
                e = r.randint(0, 3); b = r.choice([MAX - e, MIN + e, 0]); s = r.choice([1, 2, 3, 10, -1, -2, -3, -10, MAX, MIN, MAX - 1, MIN + 1, 2**62, -2**62])
            elif k < 0.8: a, b = r.getrandbits(64) - 2**63, r.getrandbits(64) - 2**63; s = r.choice([-1, 1]) * r.getrandbits(r.randint(50, 63)) or 1
            else: a = r.choice([MAX, MIN, 0, -1, 1]); b = r.choice([MAX, MIN, a, a + 1 if a < MAX else a, a - 1 if a > MIN else a]); s = r.choice([1, -1, 2, -2, MAX, MIN])
            w = ref(a, b, s, M)
            src += 'show(std.range(%s, %s, %s), %d)\n' % (il(a), il(b), il(s), M); out += '%d\t%s\n' % (len(w), arr([str(x) for x in w]))
            if len(ref(a, b, s, M + 1)) <= M and r.random() < 0.5:
                src += 'let q%d = std.range(%s, %s, %s)\nfor x in q%d do\nend\nfin(q%d)\nfin(q%d)\n' % (_, il(a), il(b), il(s), _, _, _); out += 'true\tfalse\n' * 2
        return ctx.expect('int ranges', src, out)
    ctx.map('int ranges', range(ctx.scale(150, 2000)), ints)
    def floats(i):
        r = random.Random('%s f %s' % (ctx.seed, i)); src = PRE; out = ''
        for _ in range(12):
            s = r.choice([0.5, 0.25, 1.0, 2.5, -0.5, -0.125, -1.0, 1e15, -3.75]); a = r.randint(-40, 40) / 8; b = r.randint(-40, 40) / 8
            if r.random() < 0.2: b = a
            mixed = r.random() < 0.3
            A, B, S = (fl(x) for x in (a, b, s))
            if mixed:
                if a == int(a): A = il(int(a))
                elif b == int(b): B = il(int(b))
            w = ref(a, b, s, 12)
            src += 'show(std.range(%s, %s, %s), 12)\n' % (A, B, S); out += '%d\t%s\n' % (len(w), arr([lang.showf(x) for x in w]))
        return ctx.expect('float ranges', src, out)
    ctx.map('float ranges', range(ctx.scale(60, 600)), floats)
    # collections
    def colls(i):
        r = random.Random('%s c %s' % (ctx.seed, i)); src = PRE; out = b''
        for j in range(8):
            n = r.choice([0, 0, 1, 1, 2, 3, 10, 200])
            k = r.choice(['array', 'string', 'dict', 'for', 'growing', 'manual', 'nil items'])
            xs = [r.randint(-9, 99) for _ in range(n)]
            if k == 'array': src += 'show(std.iter([%s]), 1000)\n' % ', '.join(il(x) for x in xs); out += b'%d\t%s\n' % (n, arr([str(x) for x in xs]).encode())
            elif k == 'string':
                b = bytes(r.choice(b'abcxyz0189 _-') for _ in range(n))
                src += 'let n%d = 0\nfor c in std.iter("%s") do\nstd.print(c)\nn%d = n%d + 1\nend\nstd.println("|", n%d)\n' % (j, b.decode(), j, j, j); out += b + b'|\t%d\n' % n
            elif k == 'dict':
                ks = list(dict.fromkeys('k%d' % r.randint(0, 300) for _ in range(n)))
                src += 'let d%d = @[%s]\nlet s%d = []\nlet c%d = 0\nfor e in std.iter(d%d) do\nstd.push(s%d, e.key)\nc%d = c%d + 1\nif d%d[e.key] != e.value then std.println("BAD", e) end\nend\nstd.sort(s%d)\nstd.println(c%d, s%d)\n' % (j, ', '.join('%s: %d' % (q, m) for m, q in enumerate(ks)), j, j, j, j, j, j, j, j, j, j)
                out += b'%d\t%s\n' % (len(ks), arr(['"%s"' % q for q in sorted(ks)]).encode())
                src += 'let i%d = std.iter(d%d)\nfor e in i%d do\nend\nfin(i%d)\nfin(i%d)\n' % (j, j, j, j, j); out += b'true\tfalse\n' * 2
            elif k == 'for':
                src += 'let t%d = ""\nfor x in std.iter([%s]) do\nt%d = t%d ++ std.to_string(x) ++ ","\nend\nstd.println(t%d)\n' % (j, ', '.join(il(x) for x in xs), j, j, j); out += ''.join('%d,' % x for x in xs).encode() + b'\n'
            elif k == 'growing':
                n = max(n, 1); m = r.randint(1, 5)
                src += 'let g%d = std.iter([%s])\nlet r%d = [%s]\nfor z in std.range(0, %d, 1) do\nstd.push(r%d, g%d().finished)\nend\nstd.println(r%d)\n' % (j, ', '.join(['0'] * n), j, '', n + m, j, j, j)
                out += arr(['false'] * n + ['true'] * m).encode() + b'\n'
            elif k == 'manual':
                n = min(n, 10)
                src += 'let m%d = std.iter("%s")\n' % (j, 'x' * n) + 'm%d()\n' % j * n + 'fin(m%d)\n' % j * 3; out += b'true\tfalse\n' * 3
            else:
                src += 'let n%d = 0\nfor x in std.iter([%s]) do\nn%d = n%d + 1\nend\nstd.println(n%d)\n' % (j, ', '.join(r.choice(['nil', 'false', '[]', 'std.error("a", nil)', '0', '""', '@[finished: true]']) for _ in range(n)), j, j, j); out += b'%d\n' % n
        return ctx.expect('collections', src, out)
    ctx.map('collections', range(ctx.scale(150, 2000)), colls)
    # custom iterators: body once per item, no call after the end
    def custom(i):
        r = random.Random('%s u %s' % (ctx.seed, i)); src = ''; out = ''
        for j in range(6):
            n = r.choice([0, 1, 2, 5, 30]); stop = r.choice([None, None, r.randint(0, n)]); mode = r.choice(['body', 'break', 'ret', 'nested'])
            src += 'let calls%d = 0\nlet it%d = function()\ncalls%d = calls%d + 1\nif calls%d > %d then @[ finished: true%s ] else @[ finished: false, value: calls%d * 10 ] end\nend\n' % (j, j, j, j, j, n, r.choice(['', ', value: 999', ', other: 1']), j)
            if mode == 'break' and stop is not None:
                src += 'for x in it%d do\nif x == %d then break end\nstd.print(x, " ")\nend\nstd.println("c", calls%d)\n' % (j, (stop + 1) * 10, j)
                m = min(stop, n); out += ''.join('%d\t ' % (10 * (q + 1)) for q in range(m)) + 'c\t%d\n' % (stop + 1 if stop < n else n + 1)
            elif mode == 'ret' and stop is not None:
                src += 'let f%d = function()\nfor x in it%d do\nif x == %d then return x end\nend\n"none"\nend\nstd.println(f%d(), calls%d)\n' % (j, j, (stop + 1) * 10, j, j)
                out += ('%d\t%d\n' % ((stop + 1) * 10, stop + 1)) if stop < n else 'none\t%d\n' % (n + 1)
            elif mode == 'nested':
                src += 'let p%d = 0\nfor x in it%d do\nfor y in std.iter([1, 2, 3]) do\nif y == 3 then break end\np%d = p%d + x * y\nend\nend\nstd.println(p%d, calls%d)\n' % (j, j, j, j, j, j)
                out += '%d\t%d\n' % (sum(30 * (q + 1) for q in range(n)), n + 1)
            else:
                src += 'let acc%d = []\nfor x in it%d do\nstd.push(acc%d, x)\nend\nstd.println(acc%d, calls%d)\n' % (j, j, j, j, j); out += '%s\t%d\n' % (arr([str(10 * (q + 1)) for q in range(n)]), n + 1)
        return ctx.expect('custom iterators', src, out)
    ctx.map('custom iterators', range(ctx.scale(120, 1500)), custom)
    ctx.table('closures', [
        ('let fs = []\nfor x in std.iter([1, 2]) do\nlet y = x\nstd.println(x, y)\nend\n', '1\t1\n2\t2\n'),
        ('let it = std.range(0, 4, 1)\nfor x in it do\nif x == 1 then break end\nend\nfor x in it do\nstd.println(x)\nend\n', '2\n3\n'),
        ('let a = [1, 2, 3]\nlet i = std.iter(a)\nlet j = std.iter(a)\ni()\nstd.println(i().value, j().value)\n', '2\t1\n'),
        ('for x in std.range(0, 3, 1) do\nlet x2 = x\nend\nfor x in std.iter("") do\nstd.println("no")\nend\nfor x in std.iter(@[]) do\nstd.println("no")\nend\nstd.println("ok")\n', 'ok\n'),
        ('let r = std.range(9223372036854775800, 9223372036854775807, 3)\nfor x in r do\nstd.println(x)\nend\nstd.println(r().finished, r().finished)\n', '9223372036854775800\n9223372036854775803\n9223372036854775806\ntrue\ttrue\n'),
        ('function f(n)\nlet s = 0\nfor x in std.range(0, n, 1) do\nif n > 0 then s = s + f(x) + 1 end\nend\ns\nend\nstd.println(f(8))\n', '255\n'),
        ('let n = 0\nfor x in std.range(0, 50000, 1) do\nn = n + 1\nend\nstd.println(n)\n', '50000\n'),
    ])
    ctx.values('not iterable', [('(function() for x in %s do std.println("no") end end)()' % e, 'panic:') for e in ['5', '"abc"', '[1]', 'nil', 'true', '@[]']] + [('std.iter(%s)' % e, 'panic:') for e in ['5', 'nil', 'true', 'std.iter']] + [('std.range(%s)' % e, 'panic:') for e in ['1', '1, 2', '1, 2, "a"', 'nil, 1, 2', '1, 2, 3, 4']])
