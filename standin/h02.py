import itertools
from lang import *
import lang
D = lambda *kv: ('dict', list(kv))
A = lambda *x: ('arr', list(x))
E = lambda d, c: std('error', L(d), c)
F = lambda x: L(Flt(x))
# expressions denoting values, each evaluated afresh
U = [L(None), L(True), L(False), L(0), L(1), L(-1), L(MAX), L(MIN), L(97), F(0.0), ('un', '-', F(0.0)), F(1.0), F(-1.0), F(97.0), F(1e300), F(0.1),
     L(Byte(97)), L(Byte(0)), L(Byte(255 if False else 98)), L(b''), L(b'a'), L(b'b'), L(b'ab'), L(b'a\0'), L(b'A'), L(b'nil'), L(b'1'), L(b'true'),
     A(), A(L(1)), A(L(1), L(2)), A(L(2), L(1)), A(L(1), L(1)), A(F(1.0)), A(A()), A(A(L(1))), A(L(b'a')), A(L(None)),
     D(), D(('a', L(1))), D(('a', L(2))), D(('b', L(1))), D(('a', L(1)), ('b', L(2))), D(('b', L(2)), ('a', L(1))), D(('a', L(2)), ('b', L(1))), D(('a', D(('a', L(1))))), D(('a', L(None))),
     E(b'a', L(None)), E(b'a', L(1)), E(b'b', L(1)), E(b'', L(None)), E(b'a', A(L(1))), E(b'a', F(1.0)),
     V('f'), V('g'), V('rec'), V('c1'), V('c2'), ('dot', V('std'), 'len'), ('dot', V('std'), 'println'), A(V('f')), A(V('g')), D(('a', V('rec')))]
PRE = [('fndef', 'f', [], [('expr', L(1))]), ('fndef', 'g', [], [('expr', L(1))]),
       ('fndef', 'rec', ['n'], [('expr', ('call', V('rec'), [V('n')]))]),
       ('fndef', 'mk', ['n'], [('expr', ('fn', [], [('expr', V('n'))]))]),
       ('let', 'c1', ('call', V('mk'), [L(1)])), ('let', 'c2', ('call', V('mk'), [L(2)]))]
B = lambda op, a, b: ('bin', op, a, b)
def probe(a, b):
    """== both ways, !=, and every use of a dict or array that compares."""
    return [pr(B('==', a, b), B('!=', a, b), B('==', b, a), std('contains', A(a), b)),
            ('expr', ('call', ('fn', [], [('let', 'd', D()), ('asg', ('idx', V('d'), a), L(1)), ('asg', ('idx', V('d'), b), L(2)),
                pr(std('len', V('d')), ('idx', V('d'), a), ('idx', V('d'), b), std('contains', V('d'), b),
                   B('==', V('d'), ('call', V('mkd'), [b, a])))]), []))]
MKD = ('fndef', 'mkd', ['x', 'y'], [('let', 'd', D()), ('asg', ('idx', V('d'), V('y')), L(1)), ('asg', ('idx', V('d'), V('x')), L(2)), ('expr', V('d'))])
def run(ctx):
    rng = ctx.rng
    pairs = list(itertools.combinations_with_replacement(U, 2))
    def one(chunk):
        prog = PRE + [MKD] + [s for a, b in chunk for s in probe(a, b)]
        out, k = expected(prog, 10**6)
        return ctx.expect('pairs of values', source(prog), out)
    ctx.map('pairs of values', [pairs[i:i + 25] for i in range(0, len(pairs), 25)], one)
    # ordering
    G = [[L(x) for x in (MIN, MIN + 1, -2, -1, 0, 1, 2, 2**31, 2**32, 2**53, 2**53 + 1, MAX - 1, MAX)],
         [('un', '-', F(x)) for x in (1e300, 2.5, 0.1, 0.0)] + [F(x) for x in (0.0, 5e-324, 0.1, 1.0, 1.5, 9007199254740993.0, 1e300)],
         [L(Byte(x)) for x in (0, 1, 10, 65, 97, 98, 126, 127)],
         [L(x) for x in (b'', b'\0', b'\0\0', b'A', b'B', b'a', b'aa', b'aaa', b'ab', b'abc', b'b', b'ba', b'z', b'~', b'a\n')]]
    rows = []
    for g in G:
        for a, b in itertools.product(g, g): rows.append([pr(*[B(op, a, b) for op in ('<', '<=', '>', '>=', '==', '!=')])])
    # strings of bytes above 127, and against each other
    def ord_bad(a, b, op): return [pr(std('type', std('catch', ('fn', [], [('ret', B(op, a, b))]))))]
    rep = [L(None), L(True), L(1), F(1.0), L(Byte(97)), L(b'a'), A(L(1)), D(('a', L(1))), V('f'), E(b'a', L(1))]
    for a, b in itertools.product(rep, rep):
        for op in ('<', '<=', '>', '>='): rows.append(ord_bad(a, b, op))
    for _ in range(ctx.scale(1500, 20000)):
        t = rng.random()
        if t < 0.3: a, b = (L(rng.randint(MIN, MAX) >> rng.randint(0, 63)) for _ in 'ab')
        elif t < 0.5:
            x = rng.uniform(-1, 1) * 10.0 ** rng.randint(-3, 20); y = x * rng.choice([1, 1 + 2**-52, 1 - 2**-52, -1, 2])
            a, b = F(x), F(y)
        else: a, b = (L(bytes(rng.choice(b'ab\0A~') for _ in range(rng.randint(0, 6)))) for _ in 'ab')
        rows.append([pr(*[B(op, a, b) for op in ('<', '<=', '>', '>=', '==', '!=')])])
    def two(chunk):
        prog = PRE + [s for r in chunk for s in r]
        out, k = expected(prog, 10**6)
        return ctx.expect('ordering', source(prog), out)
    ctx.map('ordering', [rows[i:i + 60] for i in range(0, len(rows), 60)], two)
    # bytes above 127
    hi = [bytes([x]) for x in (0x7f, 0x80, 0xc3, 0xfe, 0xff)] + [b'\xc3\xa9', b'\xc3\xff', b'a\xff', b'b']
    def raw(_):
        src = b''.join(b'std.println("%s" < "%s", "%s" <= "%s", "%s" == "%s")\n' % (a, b, a, b, a, b) for a in hi for b in hi)
        src += b''.join(b"std.println('%s' < '%s', '%s' >= '%s', '%s' == '%s')\n" % (a, b, a, b, a, b) for a in hi for b in hi if len(a) == len(b) == 1)
        tf = lambda *x: b'\t'.join(b'true' if v else b'false' for v in x) + b'\n'
        want = b''.join(tf(a < b, a <= b, a == b) for a in hi for b in hi) + b''.join(tf(a < b, a >= b, a == b) for a in hi for b in hi if len(a) == len(b) == 1)
        return ctx.expect('ordering', src.decode('latin1').encode('latin1'), want)
    ctx.map('ordering', [0], raw)
    # NaN
    ctx.table('nan', [('let n = 0.0 / 0.0 let m = n std.println(n == n, n != n, n == m, n == 1.0, [n] == [n], std.contains([n], n), n == nil)', 'false\ttrue\tfalse\tfalse\tfalse\tfalse\tfalse\n'),
                      ('let n = 0.0 / 0.0 let d = @[] d[n] = 1 std.println(std.contains(d, n), std.len(d))', 'false\t1\n')])
    # sort
    def srt(i):
        r = __import__('random').Random((ctx.seed, i).__repr__())
        n = r.choice([0, 1, 2, 3, 5, 8, 20, 21, 40, 100])
        t = r.random()
        if t < 0.4: xs = [r.randint(-5, 5) if r.random() < .5 else r.randint(MIN, MAX) for _ in range(n)]
        elif t < 0.6: xs = [Flt(r.uniform(-100, 100)) for _ in range(n)]
        elif t < 0.7: xs = [Byte(r.choice(b'abcdXYZ019')) for _ in range(n)]
        else: xs = [bytes(r.choice(b'ab\0A~') for _ in range(r.randint(0, 4))) for _ in range(n)]
        ys = sorted(xs)
        prog = [('let', 'a', A(*[L(x) for x in xs])), ('let', 'b', V('a')), ('expr', std('sort', V('a'))), pr(std('len', V('a')), B('==', V('a'), A(*[L(y) for y in ys])), B('==', V('b'), V('a')))]
        prog += [pr(B('==', ('idx', V('a'), L(j)), L(y))) for j, y in enumerate(ys)]
        if n == 0: prog = prog[:3] + [pr(std('len', V('a')))]
        out, k = expected(prog, 10**6)
        return ctx.expect('sort', source(prog), out)
    ctx.map('sort', range(ctx.scale(150, 2000)), srt)
    # dicts with many keys: exactly one entry per distinct key
    def dk(i):
        r = __import__('random').Random((ctx.seed, 'dk', i).__repr__())
        ks = [r.choice(U[:47]) for _ in range(r.randint(5, 60))]
        prog = PRE + [('let', 'd', D())]
        for j, k in enumerate(ks):
            prog.append(('asg', ('idx', V('d'), k), L(j)))
        for k in r.sample(U[:47], 30): prog.append(pr(std('contains', V('d'), k)))
        for k in ks: prog.append(pr(('idx', V('d'), k)))
        prog.append(pr(std('len', V('d'))))
        out, kk = expected(prog, 10**6)
        return ctx.expect('dict keys', source(prog), out)
    ctx.map('dict keys', range(ctx.scale(100, 1000)), dk)
    # dicts whose keys are collections, as keys of another dict: equal however they were built
    def nk(i):
        r = __import__('random').Random((ctx.seed, 'nk', i).__repr__())
        ks = r.sample(U[9:16] + U[28:51], r.randint(2, 5)); prog = list(PRE)
        inner = r.random() < .7
        base = U[28:51]
        ks = r.sample([A(x) for x in base] + [D(('a', x)) for x in base] + [D(('a', x), ('b', y)) for x in base[:6] for y in base[:6]] + base, r.randint(2, 6)) if inner else ks
        for v in ('x', 'y'):
            prog.append(('let', v, D())); o = list(enumerate(ks)); r.shuffle(o)
            for j, k in o: prog.append(('asg', ('idx', V(v), k), L(7)))
        prog += [('let', 'd', D()), ('asg', ('idx', V('d'), V('x')), L(1)), ('asg', ('idx', V('d'), V('y')), L(2)),
                 pr(B('==', V('x'), V('y')), std('len', V('d')), ('idx', V('d'), V('x')), ('idx', V('d'), V('y')), std('len', V('x')))]
        prog += [pr(('idx', V('x'), k), std('contains', A(V('x')), V('y')), B('==', A(V('x')), A(V('y')))) for k in ks]
        # the same elements sorted from two orders give equal arrays
        z = list(ks); r.shuffle(z)
        out, kk = expected(prog, 10**6)
        s = source(prog) + '\n' + source([('let', 's', A(*ks)), ('let', 'u', A(*z)), ('expr', std('sort', V('s'))), ('expr', std('sort', V('u'))), pr(B('==', V('s'), V('u')), std('len', V('s')))])
        return ctx.expect('nested keys', s, out + b'true\t%d\n' % len(ks))
    ctx.map('nested keys', range(ctx.scale(300, 3000)), nk)
    # mutable keys hash and compare by content
    ctx.table('mutable keys', [
        ('let a = [1] let d = @[] d[a] = 5 std.println(d[[1]], std.contains(d, [1]), std.contains(d, [2]))', '5\ttrue\tfalse\n'),
        ('let k = @[x: 1, y: @[z: [1, 2]]] let d = @[] d[k] = 7 std.println(d[@[y: @[z: [1, 2]], x: 1]])', '7\n'),
        ('let d = @[] d[std.error("e", [1])] = 3 std.println(d[std.error("e", [1])], std.contains(d, std.error("e", [2])))', '3\tfalse\n'),
        ('let d = @[] d[0.0] = 3 std.println(d[-0.0], std.contains(d, 0))', '3\tfalse\n'),
        ('function f() 1 end let h = f std.println(f == h, [f, h] == [h, f], std.contains([f], h))', 'true\ttrue\ttrue\n'),
        ('function f(n) f(n) end let h = f let d = @[] d[f] = 1 d[h] = 2 std.println(std.len(d), f == h)', '1\ttrue\n'),
        ('function o() function i() o() end i end let a = o() let d = @[] d[a] = 1 std.println(a == a, d[a])', 'true\t1\n'),
        ('let n = 0.0 / 0.0 let f = function() n end std.println(f == f)', 'true\n')])
    lang.differential(ctx, 'programs', ctx.scale(200, 3000), dict(trace=0.05, strings=0.5, colls=0.4, panics=0.03))
