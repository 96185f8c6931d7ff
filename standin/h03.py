import itertools, random
from lang import *
import lang
from h02 import A, D, E, F, B, PRE
IX = [MIN, MIN + 1, -2**32, -2, -1, 0, 1, 2, 3, 4, 5, 2**31, 2**32, 2**32 + 1, 2**62, MAX - 1, MAX]
OTHER = [L(None), L(True), F(0.0), F(1.0), L(Byte(48)), L(b'0'), A(L(0)), D(('a', L(1))), V('f'), E(b'a', L(1))]
def caught(e): return std('catch', ('fn', [], [('ret', e)]))
SH = ('fndef', 'sh', ['v'], [('expr', ('if', B('==', std('type', V('v')), L(b'error')), [('expr', L(b'error'))], [('expr', V('v'))]))])
def show_(e): return pr(('call', V('sh'), [caught(e)]))
def asg(o, i, v): return ('call', ('fn', [], [('asg', ('idx', o, i), v)]), [])
def run(ctx):
    objs = [A(), A(L(10)), A(L(10), L(20)), A(L(10), L(20), L(30), L(40)), L(b''), L(b'x'), L(b'xyz'), D(), D(('a', L(1))), D(('a', L(1)), ('b', L(2))), E(b'd', L(5)), L(None), L(1), F(1.0), L(True), L(Byte(97)), V('f')]
    keys = [L(i) for i in IX] + OTHER + [L(b'a'), L(b'b'), L(b''), L(b'description'), L(b'context'), L(b'descriptio')]
    jobs = []
    for o in objs:
        prog = PRE + [SH]
        for k in keys: prog.append(show_(('idx', o, k)))
        for n in ('a', 'b', 'description', 'context', 'zz'): prog.append(show_(('dot', o, n)))
        jobs.append(prog)
        # writes: the addressed element changes, nothing else, and every reference sees it
        prog = PRE + [SH]
        for k in keys:
            prog += [('expr', ('call', ('fn', [], [('let', 'o', o), ('let', 'al', V('o')), ('let', 'box', A(V('o'))),
                      ('let', 'r', caught(asg(V('o'), k, L(99)))), pr(std('type', V('r')), B('==', V('o'), V('al')), B('==', ('idx', V('box'), L(0)), V('al')), B('==', V('al'), o)),
                      ('let', 'q', caught(('idx', V('al'), k))), pr(std('type', V('q')), B('==', V('q'), L(99)))]), []))]
        jobs.append(prog)
    # whole contents after each write
    for n in range(0, 6):
        prog = PRE + [SH]
        for k in IX:
            prog += [('expr', ('call', ('fn', [], [('let', 'o', A(*[L(10 * j) for j in range(n)])), ('let', 'al', V('o')), ('let', 'r', caught(asg(V('o'), L(k), L(99)))), pr(V('al'), std('len', V('al')))]), []))]
        jobs.append(prog)
    def one(prog):
        out, k = expected(prog, 10**6)
        return ctx.expect('index and assign', source(prog), out)
    ctx.map('index and assign', jobs, one)
    # substr
    def sub(s, i, n): return s[i:i+n] if i >= 0 and n >= 0 and i + n <= len(s) else None
    rows = []
    for s in (b'', b'a', b'abc', b'hello world'):
        for i, n in itertools.product(IX + [11, 12], IX + [10, 11, 12]):
            r = sub(s, i, n)
            rows.append(('std.substr(%s, %s, %s)' % (lit(s), lit(i), lit(n)), 'nil' if r is None else r))
    ctx.values('substr', rows, per=80)
    # push, pop, len
    def seq(i):
        r = random.Random((ctx.seed, 'seq', i).__repr__())
        prog = [SH, ('let', 'a', A(*[L(j) for j in range(r.randint(0, 3))])), ('let', 'b', V('a')), ('let', 'd', D()), ('let', 'e', A(V('a'), V('a')))]
        for j in range(r.randint(5, 25)):
            x = r.random(); n = r.choice(['a', 'b'])
            if x < 0.3: prog.append(('expr', std('push', r.choice([V(n), ('idx', V('e'), L(1))]), r.choice([L(100 + j), V('d'), L(b's')]) if r.random() < .9 else A(L(j)))))
            elif x < 0.55: prog.append(pr(std('type', caught(std('pop', V(n))))))
            elif x < 0.65: prog.append(pr(std('len', V(n)), std('is_empty', V(n)), std('len', ('idx', V('e'), L(0)))))
            elif x < 0.8: prog.append(pr(std('type', caught(asg(V(n), L(r.randint(-1, 5)), L(j))))))
            elif x < 0.9: prog.append(('asg', ('idx', V('d'), L(r.randint(0, 3))), L(j)))
            else: prog += [pr(std('len', V('d'))), pr(B('==', V('a'), V('b')))]
        prog += [('for', 'x', std('iter', V('a')), [pr(std('type', V('x')), B('==', V('x'), L(b's')))]), pr(std('len', V('a')), std('len', V('b')), std('len', V('d')))]
        out, k = expected(prog, 10**6)
        return ctx.expect('histories', source(prog), out)
    ctx.map('histories', range(ctx.scale(200, 3000)), seq)
    ctx.values('errors', [('std.pop([])', 'panic:collection is empty'), ('std.pop([7])', '7'), ('std.pop(1)', 'panic:unexpected type'), ('std.push("a", 1)', 'panic:unexpected type'),
        ('std.len(1)', 'panic:unexpected type'), ('std.len("")', '0'), ('std.len("a\\0b")', '3'), ('std.len(@[a: 1, b: 2])', '2'), ('std.substr(1, 0, 0)', 'panic:unexpected type'),
        ('std.substr("a", "0", 0)', 'panic:unexpected type'), ('std.substr("a", 0, 0.0)', 'panic:unexpected type'), ('std.push([1])', 'panic:incorrect amount'), ('[1][1]', 'panic:out of bounds'),
        ('@[a: 1]["b"]', 'panic:out of bounds'), ('"abc"[3]', 'panic:out of bounds'), ('[1][true]', 'panic:unexpected type'), ('nil.a', 'panic:unexpected type'), ('std.error("x", 3).context', '3'),
        ('std.error("x", 3).description', 'x'), ('std.error("x", 3).foo', 'panic:out of bounds'), ('std.len(std.error("x", 3).description)', '1'), ('"abc"[1] == \'b\'', 'true')])
    ctx.table('readonly', [
        ('let e = std.error("d", 1)\ne.context = 2\nstd.println(3)', '', 127, 'line 2.*readonly'), ('let s = "abc"\ns[0] = \'x\'\n', '', 127, 'line 2.*unexpected type'),
        ('let e = std.error("d", [1]) e.context[0] = 5 std.println(e.context[0])', '5\n'),
        ('let s = "abc" let t = s std.catch(function() s[0] = 1 end) std.println(s, t)', 'abc\tabc\n'),
        ('let a = [[0, 0], [0, 0]] a[0][1] = 5 std.println(a)', '[ [ 0, 5 ], [ 0, 0 ] ]\n'),
        ('let r = [0] let a = [r, r] a[0][0] = 5 std.println(a[1][0], r[0])', '5\t5\n'),
        ('let d = @[x: @[y: 1]] let e = d.x e.z = 2 d.x.y = 3 std.println(std.len(d.x), e.y, d["x"]["z"])', '2\t3\t2\n'),
        ('function f(a) a[0] = 9 std.push(a, 8) end let a = [1] f(a) std.println(a)', '[ 9, 8 ]\n'),
        ('let a = [] for i in std.range(0, 300, 1) do std.push(a, i) end let s = 0 while not std.is_empty(a) do s = s * 3 % 1000003 + std.pop(a) end std.println(s, std.len(a))',
         '%d\t0\n' % __import__('functools').reduce(lambda s, x: s * 3 % 1000003 + x, range(299, -1, -1), 0))])
    lang.differential(ctx, 'programs', ctx.scale(300, 3000), dict(colls=0.7, trace=0.05))
