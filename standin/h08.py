import random
from lang import *
import lang
class ScopeGen:
    """Programs made only of declarations, shadowing, closures and assignments, with very few names."""
    N = ['x', 'y', 'z']
    def __init__(self, r): self.r = r; self.k = 0; self.budget = 60
    def ex(self, vis):
        v = [n for n in self.N if n in vis]
        if v and self.r.random() < 0.75:
            e = V(self.r.choice(v))
            return e if self.r.random() < 0.6 else ('bin', '+', e, L(self.r.randint(1, 9)))
        return L(self.r.randint(0, 99))
    def block(self, vis, own, depth, fns, n):
        """vis: visible names; own: names declared in this very scope."""
        out = []; vis = set(vis); own = set(own); fns = list(fns)
        for _ in range(n):
            self.budget -= 1
            if self.budget < 0: break
            x = self.r.random()
            free = [m for m in self.N if m not in own]
            if x < 0.28 and free:
                m = self.r.choice(free); e = self.ex(vis | {m} if self.r.random() < .1 else vis)
                if e[0] == 'var' and e[1] == m or (e[0] == 'bin' and e[2] == V(m)): e = L(7)
                out.append(('let', m, e)); vis.add(m); own.add(m)
            elif x < 0.45 and vis:
                out.append(('asg', V(self.r.choice(sorted(vis))), self.ex(vis)))
            elif x < 0.6 and vis:
                self.k += 1; out.append(pr(L(b'%d' % self.k), *[V(m) for m in sorted(vis)]))
            elif x < 0.75 and depth > 0:
                f = 'f%d' % self.r.randint(0, 10**6); ps = self.r.sample(self.N, self.r.randint(0, 2))
                body, _, _, _ = self.block(vis | set(ps), set(ps), depth - 1, fns, self.r.randint(1, 5))
                body.append(('expr', self.ex(vis | set(ps))))
                if self.r.random() < 0.4:
                    out.append(('let', f, ('fn', ps, body)))
                else: out.append(('fndef', f, ps, body))
                fns.append((f, len(ps)))
            elif x < 0.88 and fns:
                f, k = self.r.choice(fns)
                c = ('call', V(f), [self.ex(vis) for _ in range(k)])
                self.k += 1; out.append(pr(L(b'%d' % self.k), c))
            elif depth > 0:
                y = self.r.random()
                if y < 0.5:
                    b, _, _, _ = self.block(vis, set(), depth - 1, fns, self.r.randint(1, 4))
                    o, _, _, _ = self.block(vis, set(), depth - 1, fns, self.r.randint(0, 3))
                    out.append(('expr', ('if', L(self.r.random() < .6), b, o)))
                else:
                    m = self.r.choice(self.N)
                    b, _, _, _ = self.block(vis | {m}, {m}, depth - 1, fns, self.r.randint(1, 4))
                    out.append(('for', m, std('range', L(0), L(self.r.randint(1, 2)), L(1)), b))
        return out, vis, own, fns
    def program(self):
        out, vis, own, fns = self.block(set(), set(), 4, [], 9)
        for f, k in fns: out.append(pr(L(b'e'), ('call', V(f), [L(1)] * k)))
        if vis: out.append(pr(L(b'end'), *[V(m) for m in sorted(vis)]))
        return out
def run(ctx):
    T = [
     ('let x = 1 if true then let x = 2 std.println(x) end std.println(x)', '2\n1\n'), ('let x = 1 if true then x = 2 end std.println(x)', '2\n'),
     ('let x = 1 for x in std.range(5, 7, 1) do std.println(x) end std.println(x)', '5\n6\n1\n'), ('let x = 1 function f(x) x = 9 x end std.println(f(3), x)', '9\t1\n'),
     ('let x = 1 while x < 3 do let y = x x = x + 1 std.println(y) end std.println(x)', '1\n2\n3\n'), ('let x = 1 let f = function() x end if true then let x = 2 std.println(f()) end', '1\n'),
     ('let x = 1 if true then let f = function() x end let x = 2 std.println(f(), x) end', '1\t2\n'), ('let x = 1 if true then let y = x let x = 2 std.println(y, x) end std.println(x)', '1\t2\n1\n'),
     # closures share variables, at any depth
     ('let c = 0 function inc() c = c + 1 end inc() inc() std.println(c) c = 10 inc() std.println(c)', '2\n11\n'),
     ('function mk() let c = 0 @[i: function() c = c + 1 c end, g: function() c end] end let a = mk() let b = mk() a.i() a.i() b.i() std.println(a.g(), b.g())', '2\t1\n'),
     ('function a() let x = 1 function b() function c() function d() x = x + 1 x end d end c() end let d = b() std.println(d(), d()) x = 10 std.println(d(), x) end a()', '2\t3\n11\t11\n'),
     ('let x = 0 let fs = [function() x = x + 1 end, function() x = x * 2 end, function() x end] fs[0]() fs[1]() fs[0]() fs[1]() std.println(fs[2](), x)', '6\t6\n'),
     ('function f(n) let g = function() n end n = n + 1 g() end std.println(f(1), f(5))', '2\t6\n'), ('function f(n) function() n = n + 1 n end end let a = f(1) let b = f(10) std.println(a(), b(), a(), b())', '2\t11\t3\t12\n'),
     ('function f() let x = 1 let g = function() x = 5 end g() x end std.println(f())', '5\n'), ('let f = function() let x = 1 return function() return function() x = x + 1 return x end end end let g = f()() std.println(g(), g())', '2\t3\n'),
     ('function f(n) if n == 0 then return [] end let l = n let r = f(n - 1) std.push(r, function() l = l + 100 l end) r end let a = f(3) std.println(a[0](), a[1](), a[2](), a[0]())', '101\t102\t103\t201\n'),
     ('function o() let x = 1 let y = 2 let z = 3 function i() let a = z let b = x std.println(a, b) y = a + b end i() std.println(x, y, z) end o()', '3\t1\n1\t4\t3\n'),
     ('let a = 1 let b = 2 function f() let g = function() let h = function() b = b + a end h() end g() end f() std.println(a, b)', '1\t3\n'),
     ('function f(a, b) let g = function() a end let h = function() b end return [g(), h(), g(), a, b] end std.println(f(1, 2))', '[ 1, 2, 1, 1, 2 ]\n'),
     ('function f(self2) let s = self2 function() s end end std.println(f(4)())', '4\n'),
     ('let x = 1 function f() let y = x let x = 2 return [y, x] end std.println(f(), x)', '[ 1, 2 ]\t1\n'),
     ('function f(x) if x then let x = 5 return function() x end end return function() x end end std.println(f(true)(), f(false)())', '5\tfalse\n'),
     ('function mk() let x = 0 let add = function(n) x = x + n end let get = function() x end return [add, get] end let p = mk() let q = mk() p[0](5) q[0](7) p[0](1) std.println(p[1](), q[1]())', '6\t7\n'),
     ('let fs = [] function each(i) std.push(fs, function() i end) end for i in std.range(0, 3, 1) do each(i) end std.println(fs[0](), fs[1](), fs[2]())', '0\t1\t2\n'),
     ('let x = 1 std.catch(function() x = 2 nil() end) std.println(x)', '2\n'), ('function f() let x = 1 std.catch(function() x = 2 nil() end) x end std.println(f())', '2\n'),
     ('function f() let x = 1 let g = function() x = x + 1 x end return g() end std.println(f(), f())', '2\t2\n'),
     ('function fact(n) if n < 2 then 1 else n * fact(n - 1) end end let g = fact fact = nil std.println(std.type(std.catch(function() g(3) end)))', 'error\n'),
     ('let r = [] let i = 0 while i < 2 do let j = i * 10 std.push(r, j) i = i + 1 end std.println(r)', '[ 0, 10 ]\n'),
     ('let k = 3 function f(x) let k = k if x then 1 end end', None),
     # self in nested functions is its own
     ('let o = @[v: 1, m: function() let me = self let g = function() me.v end g() end] std.println(o.m())', '1\n'),
     ('let o = @[v: 1, m: function() let me = self return @[v: 2, n: function() return [me.v, self.v] end] end] std.println(o.m().n())', '[ 1, 2 ]\n'),
    ]
    # out of scope names are rejected
    for s in ('if true then let x = 1 end\nx', 'function f(x) x end\nx', 'for x in std.range(0, 1, 1) do end\nx', 'while false do let x = 1 end\nx', 'function f() let x = 1 end\nx',
              'if true then let x = 1 else x end', 'let y = x\nlet x = 1', 'function f() x end\nlet x = 1', 'if true then x end\nlet x = 2', 'let f = function() let x = 1 function() end end\nx', 'x = 1', 'function g() x = 1 end',
              'if false then let x = 1 elseif x then end', 'std.println(x)', 'x()', '[x]', '@[a: x]', '{ echo $x }', '{ echo ${x} }', '${ echo $x; }'):
        T.append(('std.println("ran")\n' + s + '\n', '', 2, 'undeclared variable \'x\''))
    ctx.table('scopes', [t for t in T if t[1] is not None])
    lang.differential(ctx, 'scoping programs', ctx.scale(1500, 15000), mk=lambda r: ScopeGen(r).program())
    lang.differential(ctx, 'programs', ctx.scale(800, 8000), dict(closures=0.8, shadow=0.8, calls=0.5, trace=0.05, depth=4, stmts=6))
