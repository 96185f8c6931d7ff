import random
import lang
from lang import V, L, pr, std, Flt, PREC
def layouted(ctx, group, n, weights, mk=None):
    def one(i):
        r = random.Random('%s %s %s' % (ctx.seed, group, i))
        prog = mk(r) if mk else lang.Gen(r, **weights).program()
        e = lang.expected(prog)
        if e is None or len(e[0]) > 20000: return None
        base = lang.source(prog, r, 0)
        for k in range(2):
            src = lang.source(prog, r, r.choice([0, 0.2, 0.6]) if k else 0, r.choice([0, 0.5, 1]) if k else 0)
            if k: src = lang.relayout(src, r, r.choice([0, 0.4, 1]))
            x = ctx.run(src.encode('latin1'))
            if x.timeout or x.code != (127 if e[1] else 0) or x.out != e[0]: return (src, 'stdout=%r panic=%s' % e, x)
    ctx.map(group, range(n), one)
ATOMS = [L(0), L(1), L(2), L(3), L(5), L(7), L(True), L(False), L(b'a'), L(b'b'), L(b''), L(Flt(1.5)), L(Flt(2.0)), V('x'), V('y'), V('s'), V('t')]
def tree(r, n, t=None):
    """A random expression tree with n operators, of type t (or any, when it may be ill-typed)."""
    if n <= 0:
        k = {'int': [L(0), L(1), L(2), L(3), L(5), L(7), L(11), V('x'), V('y')], 'bool': [L(True), L(False), V('b')], 'str': [L(b'a'), L(b'b'), L(b''), V('s')], None: ATOMS}[t]
        a = r.choice(k)
        z = r.random()
        if t == 'int' and z < 0.3: return r.choice([('idx', V('arr'), L(r.randint(0, 2))), ('dot', V('d'), 'k'), ('call', V('f'), [a]), ('call', ('dot', V('d'), 'm'), [a]), ('idx', ('dot', V('d'), 'l'), L(1)), ('call', ('call', V('g'), [a]), [L(1)]), ('call', ('idx', ('dot', V('d'), 'fs'), L(0)), [a])])
        return a
    if t is None and r.random() < 0.9: t2 = [r.choice(['int', 'bool', 'str', None]), r.choice(['int', 'bool', 'str', None])]; op = r.choice(list(PREC))
    elif t == 'int':
        op = r.choice(['+', '-', '*', '/', '%', '-', '/']); t2 = ['int', 'int']
        if r.random() < 0.2: return ('un', '-', tree(r, n - 1, 'int'))
    elif t == 'str': op = '++'; t2 = ['str', 'str']
    else:
        if r.random() < 0.2: return ('un', 'not', tree(r, n - 1, 'bool'))
        op = r.choice(['and', 'or', 'and', 'or', '==', '!=', '<', '<=', '>', '>='])
        t2 = ['bool', 'bool'] if op in ('and', 'or') else [r.choice(['int', 'str'])] * 2 if op[0] in '<>' else r.choice([['int', 'int'], ['bool', 'bool'], ['str', 'str']])
    a = r.randint(0, n - 1)
    return ('bin', op, tree(r, a, t2[0]), tree(r, n - 1 - a, t2[1]))
PRE = lambda: [('let', 'x', L(4)), ('let', 'y', L(-3)), ('let', 'b', L(True)), ('let', 's', L(b'zz')), ('let', 't', L(b'q')), ('let', 'arr', ('arr', [L(6), L(-2), L(9)])), ('fndef', 'f', ['a'], [('expr', ('bin', '*', V('a'), L(3)))]), ('fndef', 'g', ['a'], [('expr', ('fn', ['c'], [('expr', ('bin', '+', V('a'), V('c')))]))]),
     ('let', 'd', ('dict', [('k', L(8)), ('m', ('fn', ['a'], [('expr', ('bin', '-', V('a'), ('dot', ('self',), 'k')))])), ('l', ('arr', [L(1), L(13)])), ('fs', ('arr', [('fn', ['q'], [('expr', ('bin', '-', V('q'), L(20)))])]))]))]
def run(ctx):
    def flat(r):
        """Chains without parentheses: grouped by precedence climbing here, from the flat token list."""
        p = PRE()
        for _ in range(6):
            n = r.randint(2, 8)
            ops = [r.choice(list(PREC)) if r.random() < 0.4 else r.choice(['+', '-', '*', '/', '%', '<', '==', 'and', 'or']) for _ in range(n)]
            want = r.choice(['arith', 'bool', 'any'])
            if want == 'arith': ops = [r.choice('+-*/%') for _ in range(n)]
            ats = [r.choice([L(1), L(2), L(3), L(5), L(7), V('x'), V('y'), ('un', '-', L(2)), ('un', '-', V('x')), ('idx', V('arr'), L(1)), ('un', '-', ('idx', V('arr'), L(2))), ('un', '-', ('call', V('f'), [L(2)])), ('un', '-', ('dot', V('d'), 'k'))]) if want != 'any' else r.choice(ATOMS + [('un', 'not', V('b')), ('un', 'not', ('un', 'not', L(True)))]) for _ in range(n + 1)]
            if want == 'bool':
                # int comparisons joined by logic, all flat
                ops = []; 
                for k in range(n): ops.append(r.choice('+-*') if k % 2 == 0 else None)
                lv = 0
                for k in range(n):
                    if ops[k] is None: ops[k] = ['<', 'and', '>=', 'or', '!=', '=='][lv % 6]; lv += 1
            def climb(lo, hi, toks=None):
                # lowest precedence, rightmost operator is the root (left associative)
                if lo == hi: return ats[lo]
                best = min(range(lo, hi), key=lambda i: (PREC[ops[i]], -i))
                return ('bin', ops[best], climb(lo, best), climb(best + 1, hi))
            e = climb(0, n)
            p.append(('let', 'r%d' % len(p), std('catch', ('fn', [], [('expr', e)]))))
            p.append(pr(std('type', V('r%d' % (len(p) - 1)))))
            p.append(('expr', ('if', ('bin', '!=', std('type', V('r%d' % (len(p) - 2))), L(b'error')), [pr(V('r%d' % (len(p) - 2)))], [])))
        return p
    lang.differential(ctx, 'flat chains', ctx.scale(700, 8000), mk=flat)
    def trees(r):
        p = PRE()
        for k in range(6):
            e = tree(r, r.randint(1, 9), r.choice(['int', 'bool', 'str', 'bool', None]))
            p += [('let', 'r%d' % k, std('catch', ('fn', [], [('expr', e)]))), ('expr', ('if', ('bin', '!=', std('type', V('r%d' % k)), L(b'error')), [pr(V('r%d' % k))], [pr(L(b'E'))]))]
        return p
    lang.differential(ctx, 'trees, fewest parentheses', ctx.scale(700, 8000), mk=trees)
    layouted(ctx, 'trees, any layout', ctx.scale(400, 5000), None, trees)
    layouted(ctx, 'programs, any layout', ctx.scale(600, 8000), dict(depth=4, stmts=5, trace=0.2, closures=0.3, calls=0.5, loops=0.4, colls=0.5))
    # nested prefix/postfix forms
    E = 'let d = @[a: @[b: [10, 20]], f: function() self.a.b[1] end, n: 5, t: true]\nfunction id(x) x end\nfunction er() std.error("e", 7) end\n'
    ctx.table('prefix and postfix', [(E + 'std.println(%s)\n' % a, b + '\n') for a, b in [
        ('-d.n', '-5'), ('- -d.n', '5'), ('-d.a.b[0]', '-10'), ('-id(3)', '-3'), ('not d.t', 'false'), ('not not d.t', 'true'), ('not d.t == false', 'true'), ('not (d.t == false)', 'true'), ('-d.n + 1', '-4'), ('-d.n * 2', '-10'), ('2 - -d.n', '7'), ('-2 * -3', '6'), ('2 * -3 + 1', '-5'),
        ('-id(2) - -id(3)', '1'), ('d.f()', '20'), ('-d.f()', '-20'), ('d.a.b[0] + d.a.b[1] * 2', '50'), ('id(id)(4)', '4'), ('id([1, 2])[1]', '2'), ('[[1, 2], [3]][0][1]', '2'), ('id(d).a.b[1]', '20'), ('(function() er()? 3 end)().context', '7'), ('(function() -id(4)? end)()', '-4'), ('(function() 1 + id(4)? * 2 end)()', '9'),
        ('(function() id(4)? + 1 end)()', '5'), ('(function() id(d)?.n end)()', '5'), ('(function() id(d)?.a?.b?[0]? end)()', '10'), ('(function() id(id)?(6)? end)()', '6'), ('1 - 2 - 3', '-4'), ('100 / 10 / 5', '2'), ('100 / 10 * 5', '50'), ('7 % 4 % 2', '1'), ('2 * 7 % 4', '2'), ('7 % 4 * 2', '6'), ('1 + 2 * 3', '7'), ('2 * 3 + 1', '7'),
        ('"a" ++ "b" == "ab"', 'true'), ('"ab" == "a" ++ "b"', 'true'), ('"a" ++ "b" < "b"', 'true'), ('1 + 1 == 2', 'true'), ('1 < 2 == true', 'true'), ('true == 1 < 2', 'true'), ('1 < 2 == 3 < 4', 'true'), ('true or false and false', 'true'), ('false and false or true', 'true'), ('false == false and true', 'true'), ('true and 1 == 1', 'true'),
        ('true or 1 / 0 == 1', 'true'), ('false and 1 / 0 == 1', 'false'), ('1 == 1 != false', 'true'), ('not true or true', 'true'), ('not false and false', 'false'), ('not (false and false)', 'true'), ('1 - (2 - 3)', '2'), ('(1 + 2) * 3', '9'), ('-(1 + 2)', '-3'), ('8 / (4 / 2)', '4'), ('1 != 1 == false', 'true'), ('if 1 < 2 and 2 < 3 then 1 else 2 end + 10', '11'), ('10 - if true then 1 end - 2', '7')]])
    # every statement is kept, wherever blocks begin and end
    S = []
    S.append(('std.println(1) if true then std.println(2) elseif true then std.println(3) else std.println(4) end std.println(5)\n', '1\n2\n5\n'))
    for k in range(5):
        c = ['n == %d' % j for j in range(4)]
        S.append(('let n = %d\nif n == 0 then std.println("a") std.println("a2") elseif n == 1 then std.println("b") std.println("b2") elseif n == 2 then std.println("c") elseif n == 3 then std.println("d") else std.println("e") std.println("e2") end std.println("z")\n' % k, ['a\na2\n', 'b\nb2\n', 'c\n', 'd\n', 'e\ne2\n'][k] + 'z\n'))
        S.append(('let n = %d\nstd.println(if n == 0 then 10 elseif n == 1 then 11 elseif n == 2 then 12 else if n == 3 then 13 else 14 end end)\n' % k, '%d\n' % (10 + k)))
    S += [('function f(a) if a then return 1 end return 2 end std.println(f(true), f(false))', '1\t2\n'), ('function f() return end std.println(f())', 'nil\n'), ('function f() std.println(1) return 2 end function g() std.println(3) f() end std.println(g()) std.println(4)', '3\n1\n2\n4\n'),
          ('let a let b = 2 std.println(a, b)', 'nil\t2\n'), ('let a = 1 a = 2 let b = a b = 3 std.println(a, b)', '2\t3\n'), ('for i in std.range(0, 2, 1) do std.println(i) for j in std.range(0, 2, 1) do std.println("j", j) end std.println("k") end std.println("z")', '0\nj\t0\nj\t1\nk\n1\nj\t0\nj\t1\nk\nz\n'),
          ('while true do std.println(1) if true then std.println(2) break end std.println(3) end std.println(4)', '1\n2\n4\n'), ('function a() function b() function c() 1 end c() + 1 end b() + 1 end std.println(a())', '3\n'), ('let f = function() function g() 2 end g end std.println(f()())', '2\n'),
          ('std.println(1)\nfunction f()\nend\nstd.println(2)\nfunction g() end std.println(3)', '1\n2\n3\n'), ('if true then end std.println(1) if false then else end std.println(2)', '1\n2\n'), ('let x = [1, 2,] let y = @[a: 1,] std.println(std.len(x), std.len(y), y.a,)', '2\t1\t1\n'), ('function f(a, b,) a + b end std.println(f(1, 2,),)', '3\n')]
    ctx.table('statements kept', S)
    def many(i):
        r = random.Random('%s many %s' % (ctx.seed, i)); src = []; out = []
        def blk(d, live):
            for _ in range(r.randint(1, 4)):
                k = r.choice(['p', 'p', 'if', 'elif', 'fn', 'for', 'let', 'call']) if d else 'p'
                n = len(src)
                if k == 'p': src.append('std.println(%d)' % n); live and out.append(str(n))
                elif k == 'let': src.append('let v%d = %d' % (n, n)); src.append('std.println(v%d)' % n); live and out.append(str(n))
                elif k == 'if':
                    c = r.random() < 0.5; src.append('if %s then' % str(c).lower()); blk(d - 1, live and c)
                    if r.random() < 0.6: src.append('else'); blk(d - 1, live and not c)
                    src.append('end')
                elif k == 'elif':
                    w = r.randint(0, 3); src.append('if %s then' % str(w == 0).lower()); blk(d - 1, live and w == 0); src.append('elseif %s then' % str(w == 1).lower()); blk(d - 1, live and w == 1)
                    src.append('elseif %s then' % str(w == 2).lower()); blk(d - 1, live and w == 2); src.append('else'); blk(d - 1, live and w == 3); src.append('end')
                elif k == 'fn': src.append('function f%d()' % n); blk(d - 1, False); src.append('end')
                elif k == 'call': src.append('let c%d = function()' % n); blk(d - 1, live); src.append('end'); src.append('c%d()' % n)
                elif k == 'for': src.append('for i%d in std.range(0, 1, 1) do' % n); blk(d - 1, live); src.append('end')
        blk(3, True)
        t = r.choice(['\n', ' ', '\n\n', ' # c\n']).join(src) + '\n'
        return ctx.expect('statements in order', t, ''.join(o + '\n' for o in out))
    ctx.map('statements in order', range(ctx.scale(300, 4000)), many)
