import random, re
import lang, h09
TOK = ['let', 'if', 'then', 'else', 'elseif', 'end', 'for', 'in', 'do', 'while', 'function', 'return', 'break', 'self', 'nil', 'true', 'false', 'not', 'and', 'or', 'x', 'y', 'std', 'std.println', 'a1', '_', '0', '1', '42', '9223372036854775807', '9223372036854775808',
       '1.5', '1e5', '1.', '1e', '.', '..', ',', ':', '(', ')', '[', ']', '@[', '{', '}', '${', '&{', '=', '==', '!=', '!', '<', '<=', '>', '>=', '+', '-', '*', '/', '%', '++', '?', '"', "'", '"abc"', "'a'", '"\\n"', "'\\n'", '\\', '#', '#c\n', '\n', '\t', ' ', ';', '|', '&', '$', '$x', '${x}', '"$x"', '~', '^', '`', '@', '1>2', '2>1', '2>>', '>>', '<<', '\0', '\x80', '\xff', '\xc3\xa9', '\r', '\x0b', 'echo', 'cd', 'alias', 'a=b', 'X=$x', '*', '%a', '?;', 'exec', 'exec0', 'spawn0']
SNIP = ['let x = 1\nlet y = "a\\nb"\nstd.println(x + 2 * 3, y)\n', 'function f(a, b)\n\tif a > b then\n\t\treturn a\n\telseif a == b then\n\t\tnil\n\telse\n\t\tb\n\tend\nend\nf(1, 2)\n', 'for i in std.range(0, 3, 1) do\n\twhile true do\n\t\tbreak\n\tend\nend\n',
        'let d = @[ a: 1, b: [1, 2.5, \'c\', "s"], c: function() self.a end ]\nd.c()\nd.b[0] = d["a"]\n', '{ echo "a$x b" ${y} \'c\' *.txt > out.txt 2>1; ls | cat -n ? | wc -l }\n', 'let x = 5\nlet o = ${ X=$x printf "%s" $x << "text" 2>> err.log }\nlet j = &{ sleep 0; true }\n',
        '# comment\nlet t = not true and false or 1 < 2\nlet e = std.error("d", nil)\nfunction g() e? end\n', '{\n\tcd $dir\n\techo a\\ b\\"c \\$ "\\"q\\"" \'lit $x\';\n\tcat < in.txt | sort >> out ? ;\n}\n', 'let s = "\\"\\\\\\t\\0"\nlet b = \'\\\'\'\nlet n = -1.5e3\n']
def lines_of(s): return s.count(b'\n') + 1
def mutate(r, s):
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        k = r.random(); n = len(s); i = r.randint(0, n)
        if k < .15: s = s[:i] + s[min(n, i + r.choice([1, 1, 2, 5, 20])):]
        elif k < .45: s = s[:i] + r.choice(['', ' ']).encode() + r.choice(TOK).encode('latin1') + r.choice(['', ' ']).encode() + s[i:]
        elif k < .6 and n: i = r.randrange(n); s = s[:i] + bytes([r.randrange(256)]) + s[i + 1:]
        elif k < .7: s = s[:i]
        elif k < .8: j = r.randint(0, n); a, b = min(i, j), max(i, j); s = s[:a] + s[a:b] * 2 + s[b:]
        elif k < .9: j = r.randint(0, n); a, b = min(i, j), max(i, j); s = s[:a] + s[b:] + s[a:b]
        else:
            w = list(re.finditer(rb'\w+|[^\w\s]', s))
            if w: m = r.choice(w); s = s[:m.start()] + r.choice(TOK).encode('latin1') + s[m.end():]
    return s[:20000]
def verdict(ctx, s, expect=None):
    x = ctx.run(s, opts=('--check',), timeout=15)
    if x.timeout: return (s, 'the front end ends', x)
    if x.code not in (0, 2): return (s, 'exit status 0 or 2 with --check', x)
    if expect is not None and x.code != expect: return (s, 'exit status %d with --check' % expect, x)
    if x.out: return (s, 'no output with --check', x)
    if x.code == 2:
        ls = [int(m) for m in re.findall(rb'main\.hsh \(line (\d+), column', x.err)]
        if not x.err.strip(): return (s, 'at least one diagnostic', x)
        if any(l < 1 or l > lines_of(s) for l in ls): return (s, 'diagnostics name lines 1..%d' % lines_of(s), x)
        if b'{' not in s:
            y = ctx.run(b'std.println("RAN") while false do end ' + s, timeout=15)
            if y.out or y.code != 2: return (b'std.println("RAN") while false do end ' + s, 'a rejected script is not executed', y)
    elif b'Error' in x.err: return (s, 'no diagnostic for an accepted script', x)
def run(ctx):
    q = ctx.scale(1, 12)
    def mut(i):
        r = random.Random('%s m %s' % (ctx.seed, i))
        if r.random() < .4:
            try: s = lang.source(lang.Gen(random.Random(r.random())).program(), r).encode('latin1')
            except Exception: s = r.choice(SNIP).encode('latin1')
            s = s[:4000]
        else: s = ''.join(r.choice(SNIP) for _ in range(r.choice([1, 1, 2, 3]))).encode('latin1')
        return verdict(ctx, mutate(r, s))
    ctx.map('mutated scripts', range(1600 * q), mut)
    def soup(i):
        r = random.Random('%s t %s' % (ctx.seed, i)); sep = r.choice([' ', '', '\n', ' '])
        s = sep.join(r.choice(TOK) for _ in range(r.choice([1, 2, 3, 4, 6, 10, 30, 100])))
        if r.random() < .3: s = r.choice(['{ ', '${ ', '{ echo ', 'let x = ', 'function f() ', '@[ a: ', 'if ', 'for x in ']) + s
        if r.random() < .3: s = s + r.choice([' }', ' end', ' ]', ')'])
        return verdict(ctx, s.encode('latin1'))
    ctx.map('token soup', range(1600 * q), soup)
    def bts(i):
        r = random.Random('%s b %s' % (ctx.seed, i)); n = r.choice([0, 1, 2, 3, 5, 8, 20, 100, 1000])
        al = r.choice([bytes(range(256)), bytes(range(32, 127)), b'{}[]()$@"\'\\ \n', b'"\\x41\'n', b'0123456789.eE+-_x', b'<>=!&|12; \n{}'])
        return verdict(ctx, bytes(r.choice(al) for _ in range(n)))
    ctx.map('random bytes', range(700 * q), bts)
    ctx.map('single bytes', [bytes([c]) for c in range(256)] + [b'let x = ' + bytes([c]) for c in range(0, 256)] + [b'{ ' + bytes([c]) for c in range(256)], lambda s: verdict(ctx, s))
    # every prefix
    pre = []
    for s in SNIP + ['{ echo $x${y}"$z${w}" \'q\' a=b *% > f 2>> g 1>2 << "h" ? | cat ; true & }', 'let a = @[ b: [1, (2)], c: function(x, y) x.y[0](1)? end ]']:
        b = s.encode('latin1'); pre += [b[:i] for i in range(len(b))]
    ctx.map('prefixes', pre, lambda s: verdict(ctx, s))
    # nesting up to 100 levels
    N = 100
    deep = [('(' * N + '1' + ')' * N, 0), ('let a = ' + '[' * N + ']' * N, 0), ('let a = ' + '@[a: ' * N + '1' + ']' * N, 0), ('if true then ' * N + 'end ' * N, 0), ('while true do ' * N + 'break ' + 'end ' * N, None), ('function() ' * N + 'end ' * N, None), ('let a = ' + 'function() ' * N + 'end ' * N, 0),
            ('let a = ' + '-' * N + '1', 0), ('let a = ' + 'not ' * N + 'true', 0), ('let a = 1' + ' + 1' * 100, 0), ('let a = 1' + ' == 1' * 100, 0), ('let a = std' + '.a' * 100, 0), ('let a = std' + '()' * 100, 0), ('let a = std' + '[0]' * 100, 0), ('(' * N, 2), ('[' * N, 2), ('{' * N, 2), ('${' * N, 2), ('if ' * N, 2), ('@[' * N, 2), ('function f(' * N, 2), (')' * 1000, 2), ('end ' * 1000, 2), (']' * 1000, 2), ('}' * 1000, 2), ('if true then 1 ' + 'elseif true then 2 ' * 100 + 'else 3 end', 0),
            ('let a = "' + 'x' * 100000 + '"', 0), ('# ' + 'x' * 100000, 0), ('let ' + 'x' * 50000 + ' = 1', 0), ('let a = ' + '0' * 5000 + '1', None), ('let a = ' + '9' * 5000, 2), ('\n' * 50000 + ')', 2), ('{ echo ' + 'a ' * 5000 + '}', 0), ('{ ' + 'true | ' * 300 + 'true }', 0), ('{ ' + 'true; ' * 300 + '}', 0), ('{ echo "' + '\\"' * 3000 + '" }', 0), ("{ echo '" + 'x' * 3000 + "' }", 0)]
    ctx.map('nesting and size', deep, lambda d: verdict(ctx, d[0].encode(), d[1]))
    # valid programs stay accepted, with command blocks
    ctx.map('snippets', [s.encode('latin1') for s in SNIP], lambda s: verdict(ctx, b'let x = 1 let y = 2 let dir = "."\n' * 0 + s))
