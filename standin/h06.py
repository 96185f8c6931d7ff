import random
from lang import *
import lang
from h02 import A, D, E, F, B
def run(ctx):
    T = []
    # arity: only the declared number of arguments runs the body
    for n in range(0, 7):
        ps = ['p%d' % i for i in range(n)]
        for m in range(0, 8):
            call = 'f(%s)' % ', '.join(str(10 + i) for i in range(m))
            src = 'function f(%s)\n std.println("body"%s)\nend\nlet pad = 77\nstd.println("before")\nlet r = std.catch(function() %s end)\nstd.println(std.type(r), pad)\n%s\nstd.println("after", pad)\n' % (', '.join(ps), ''.join(', ' + p for p in ps), call, call)
            if n == m:
                b = 'body' + ''.join('\t%d' % (10 + i) for i in range(n)) + '\n'
                T.append((src, 'before\n' + b + 'nil\t77\n' + b + 'after\t77\n'))
            else: T.append((src, 'before\nerror\t77\n', 127, 'incorrect amount of function parameters'))
    T += [
     # self
     ('let o = @[v: 5, m: function() self.v end] std.println(o.m(), o["m"]())', '5\t5\n'), ('let o = @[m: function() self end] let f = o.m std.println(f(), std.type(o.m()))', 'nil\tdict\n'),
     ('function f() self end std.println(f(), (function() self end)())', 'nil\tnil\n'),
     ('let o = @[v: 1, m: function() let g = function() self end g() end] std.println(o.m())', 'nil\n'),
     ('let a = [function() self end, 3] std.println(std.len(a[0]()), a[0]()[1])', '2\t3\n'),
     ('let o = @[v: 1, m: function(x) self.v = self.v + x self end] std.println(o.m(2).m(3).v)', '6\n'),
     ('let p = @[v: 9] let o = @[v: 1, m: function() self.v end] p.m = o.m std.println(p.m(), o.m())', '9\t1\n'),
     ('let o = @[a: @[m: function() self.k end, k: 4], k: 3] std.println(o.a.m())', '4\n'),
     ('let o = @[v: 8] let f = std.bind(o, function(x) self.v + x end) std.println(f(2), f(3))', '10\t11\n'),
     ('function f(a, b) std.type(self) end let o = @[m: f] std.println(o.m(1, 2), f(1, 2))', 'dict\tnil\n'),
     ('let o = @[f: function() 1 end] let q = @[g: function() return o.f() end, h: function() return self end] std.println(q.g(), q.h() == q)', '1\ttrue\n'),
     ('let e = std.error("d", function() self end) std.println(std.type(e.context()))', 'error\n'),
     # locals start as nil in every call
     ('function f(n) let x if n == 0 then x = 5 end x end std.println(f(0), f(1), f(0), f(1))', '5\tnil\t5\tnil\n'),
     ('function f(n) let a let b let c a = n std.println(a, b, c) b = n c = n end f(1) f(2)', '1\tnil\tnil\n2\tnil\tnil\n'),
     ('function g() let a = 1 let b = 2 let c = 3 end function f() let x let y let z std.println(x, y, z) end g() f()', 'nil\tnil\tnil\n'),
     # caller untouched
     ('function f(a) a = a + 1 let z = 100 a end let a = 1 let z = 2 let r = f(a) std.println(a, z, r)', '1\t2\t2\n'),
     ('function f(n) if n == 0 then return 0 end let a = n let r = f(n - 1) std.println(a, n) r end f(4)', '1\t1\n2\t2\n3\t3\n4\t4\n'),
     ('function g(x) let p = 1 let q = 2 x end function f(a, b) let c = a let d = g(b) std.println(a, b, c, d) end f(1, 2)', '1\t2\t1\t2\n'),
     ('function f(x) x end std.println(f(f(1) + f(2)) + f(3), f(f(f(9))))', '6\t9\n'),
     ('function f(x, y) x * 10 + y end std.println(f(1, f(2, f(3, 4))), f(f(f(1, 2), 3), 4))', '64\t1234\n'),
     ('function p() std.panic("x") end function f(a, b, c) std.println(a, b, c) end f(1, std.type(std.catch(function() f(7, 8, p()) end)), 3)', '1\terror\t3\n'),
     ('function p(x) std.panic("x") end function f(a, b, c, d) std.println(a, b, c, d) end f(1, std.type(std.catch(function() f(7, p(f(1, 2, p(3), 4)), 9, 10) end)), 3, 4)', '1\terror\t3\t4\n'),
     ('function f() let a = 1 let b = 2 let r = std.catch(function() let q = 5 let w = 6 g9(1) end) std.println(a, b, std.type(r)) end function g9(x) x end f()', None),
     ('let g function f() let a = 1 let b = 2 let r = std.catch(function() let q = 5 let w = 6 g(1, 2, 3) end) std.println(a, b, std.type(r)) end g = function(x) x end f()', '1\t2\terror\n'),
     ('function r(x) return x end function f() let a = 1 let s = [r(2), r(3), r(4)] let b = 5 std.println(a, s, b) end f()', '1\t[ 2, 3, 4 ]\t5\n'),
     ('function f() let a = 1 std.error("e", std.println("x"))? a end function g() let b = 2 let c = f() std.println(b, std.type(c)) end g()', 'x\n2\terror\n'),
     ('function q(x) if x then std.error("e", 1) else 5 end end function f(x) let v = q(x)? v + 1 end let k = 3 let s = [k, f(true), f(false), k] std.println(std.type(s[1]), s[2], s[3], k)', 'error\t6\t3\t3\n'),
     ('function z(a, b) std.println(a, b) end function f() z(1, std.error("e", 4)?) end let w = f() std.println(w.context) z(5, 6)', '4\n5\t6\n'),
     # tail calls
     ('function g(a, b, c) let d = a std.println(a, b, c, d) end function f(x) let y = 2 let z = 3 return g(z, y, x) end f(1) f(9)', '3\t2\t1\t3\n3\t2\t9\t3\n'),
     ('function g(a) let l1 = a let l2 = l1 + 1 let l3 = l2 + 1 l3 end function f() g(1) end let p = 10 let q = 20 let r = f() std.println(p, q, r)', '10\t20\t3\n'),
     ('function f(n, acc) if n == 0 then return acc end return f(n - 1, acc + n) end std.println(f(1000, 0))', '500500\n'),
     ('let odd function even(n) if n == 0 then true else return odd(n - 1) end end odd = function(n) if n == 0 then false else return even(n - 1) end end std.println(even(10), even(7))', 'true\tfalse\n'),
     ('function g(h) return h(1) end function f() let x = 5 return g(function(k) x + k end) end std.println(f(), f())', '6\t6\n'),
     ('function g(x) std.panic(x) end function f(y) let a = y return g(a) end let k = 4 let r = std.catch(function() f(1) end) std.println(k, std.type(r))', '4\terror\n'),
     ('function g() 1 end function f(y) let a = y return g(a) end let k = 4 let r = std.catch(function() f(1) end) std.println(k, std.type(r))', '4\terror\n'),
     ('function f(y) let a = y return a(1) end let k = 4 let r = std.catch(function() f(1) end) std.println(k, std.type(r))', '4\terror\n'),
     ('function f(x) let y = x return std.println(y, x) end f(3) let z = 1 std.println(z)', '3\t3\n1\n'),
     ('function g(a, b) a - b end function f(x, y) return g(y, x) end std.println(f(1, 10), f(10, 1))', '9\t-9\n'),
     # recursion
     ('function f(n) if n == 0 then 0 else 1 + f(n - 1) end end std.println(f(1000))', '1000\n'),
     ('function fib(n) if n < 2 then n else fib(n - 1) + fib(n - 2) end end std.println(fib(15))', '610\n'),
     ('function a(m, n) if m == 0 then n + 1 elseif n == 0 then a(m - 1, 1) else a(m - 1, a(m, n - 1)) end end std.println(a(2, 3))', '9\n'),
     # not callable
     ] + [('std.println(1)\nlet f = %s\nf(std.println(2))\n' % v, '1\n', 127, 'line 3.*not a function') for v in ('nil', '1', '"f"', '[]', '@[]', 'std.error("e", 1)')]
    # deep recursion needs a larger native stack than the default (see known findings)
    import resource
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    big = hard == resource.RLIM_INFINITY or hard >= 1 << 30
    if not big: T = [t for t in T if '(1000' not in t[0]]
    ctx.table('calls', [t for t in T if t[1] is not None], stack=1 << 20 if big else None)
    # calls of native functions through all positions leave pending arguments alone
    def nat(i):
        r = random.Random((ctx.seed, 'nat', i).__repr__())
        def e(d):
            x = r.random()
            if d == 0 or x < 0.2: return L(r.randint(0, 9))
            if x < 0.4: return std('len', A(*[e(d - 1) for _ in range(r.randint(0, 3))]))
            if x < 0.55: return ('call', V('k'), [e(d - 1), e(d - 1)])
            if x < 0.7: return ('call', V('tl'), [e(d - 1), e(d - 1), e(d - 1)])
            if x < 0.8: return std('len', std('type', std('catch', ('fn', [], [('ret', ('call', V('k'), [e(d - 1), std('panic', L(1))]))]))))
            if x < 0.9: return ('call', ('dot', D(('m', ('fn', ['x'], [('ret', ('bin', '+', V('x'), ('dot', ('self',), 'v')))])), ('v', e(d - 1))), 'm'), [e(d - 1)])
            return ('call', ('fn', ['x', 'y'], [('let', 'z', e(d - 2) if d > 1 else L(1)), ('expr', ('bin', '-', ('bin', '*', V('x'), L(3)), V('z')))]), [e(d - 1), e(d - 1)])
        prog = [('fndef', 'k', ['a', 'b'], [('let', 'c', V('a')), ('expr', ('bin', '-', ('bin', '*', V('c'), L(2)), V('b')))]),
                ('fndef', 'tl', ['a', 'b', 'c'], [('let', 'q', V('b')), ('ret', ('call', V('k'), [V('c'), V('q')]))]),
                ('let', 'w', L(42))]
        for _ in range(4): prog += [('let', 'w%d' % r.randint(0, 10**9), L(1)), pr(e(4), V('w'), e(3))]
        ex = expected(prog, 10**5)
        if ex is None: return None
        out, k = ex
        return ctx.expect('nested calls', source(prog), out, 127 if k else 0)
    ctx.map('nested calls', range(ctx.scale(300, 3000)), nat)
    # unbounded recursion: a panic, not an abort; it can be caught and the program goes on
    big_ok = big
    big = ' '.join('let l%d = n' % i for i in range(700))
    rec = [('function f(n) %s f(n + 1) + 1 end\nstd.println(1)\nf(0)\n' % big, '1\n', 127, 'stack overflow'),
           ('function f(n) %s f(n + 1) + 1 end\nlet k = 7\nlet r = std.catch(function() f(0) end)\nstd.println(std.type(r), k)\nlet r = 1 std.println(r)\n'.replace('let r = 1 std.println(r)\n', '') % big, 'error\t7\n'),
           ('function f(n) %s f(n + 1) + 1 end\nlet k = 7\nfor i in std.range(0, 5, 1) do\n let r = std.catch(function() f(0) end)\n std.println(std.type(r), k, i)\nend\n' % big, ''.join('error\t7\t%d\n' % i for i in range(5)))]
    if big_ok: ctx.table('stack overflow', rec, stack=1 << 20)
    lang.differential(ctx, 'programs', ctx.scale(800, 8000), dict(calls=0.8, closures=0.4, trace=0.2, depth=4, catch=0.2, tri=0.2, panics=0.03))
    import flows
    flows.run_flows(ctx, 'escapes in every position', ctx.scale(600, 6000))
