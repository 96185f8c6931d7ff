import random
from lang import *
import lang
from h02 import A, D, E, F, B
def run(ctx):
    # every kind of panic is catchable, described, and leaves the surrounding state as the completed operations made it
    P = ['1 / 0', '9223372036854775807 + 1', 'nil + 1', '[1][1]', '@[a: 1].b', '"a"[1]', 'nil()', 'g()', 'g(1, 2)', 'std.pop([])', 'std.panic("boom")', 'std.panic([1])', 'std.assert(false)',
         'if nil then end', 'not 1', '-"a"', '1 < "a"', '1 and true', 'true and 1', 'std.len(1)', 'std.import("nope.hsh")', 'std.import("bad.hsh")', 'std.import("bad2.hsh")', 'std.import("boom.hsh")', 'std.import(1)',
         '[1, 2, 1 / 0]', '@[a: 1, b: 1 / 0]', 'g(1 / 0)', 'g(g(1 / 0))', 'std.println(1, 1 / 0)', 'std.sort(1)', 'std.range(1, 2)', 'std.iter(1)()', '(function() for i in nil do end end)()',
         '(function() for i in function() 1 end do end end)()', '(function() while 1 do end end)()', 'std.catch(1)', 'std.catch()', 'std.substr(1, 2, 3)', 'std.push(1, 2)', 'std.error(1, 2)',
         '{ $nope }' if False else 'std.int([])', 'std.hex.decode(1)' if False else 'std.split(1, 2)', '(function() let e = std.error("a", 1) e.context = 2 end)()']
    files = {'bad.hsh': 'let = 1\n', 'bad2.hsh': 'x = 1\n', 'boom.hsh': 'let a = 1 let b = 2 std.panic("in module")\n'}
    pre = 'let log = []\nfunction g(x) let q = x q end\n'
    def one(p):
        src = pre + ('let a = 1 let b = [10, 20] let d = @[k: 1]\n'
          'function f(x, y, z)\n let m = x\n let n = [x, std.type(std.catch(function() let u = 5 a = a + 1 b[0] = b[0] + 1 d.k = [x, y, %s] d.k = 9 end)), z]\n std.println(x, y, z, m, n)\n m end\n'
          'let i = 0\nwhile i < 3 do\n std.println(f(i, 100, 200), a, b[0], d.k)\n i = i + 1\nend\n'
          'let e = std.catch(function() %s end)\nstd.println(std.type(e), e.context, std.type(e.description), std.len(e.description) > 13, std.substr(e.description, 0, 13))\n'
          'std.println(std.catch(function() 5 end), std.catch(function() return std.error("x", 6) end).context)\n') % (p, p)
        out = ''.join('%d\t100\t200\t%d\t[ %d, "error", 200 ]\n%d\t%d\t%d\t1\n' % (i, i, i, i, i + 2, 11 + i) for i in range(3)) + 'error\tpanic\tstring\ttrue\tcaught panic:\n5\t6\n'
        return ctx.expect('caught panics', src, out, files=files)
    ctx.map('caught panics', P, one)
    def desc(row):
        p, m = row
        return ctx.expect('panic descriptions', 'let e = std.catch(function()\n %s\nend)\nstd.println(e.description)\n' % p, 'caught panic: Panic in main.hsh (line 2, column %s): %s\n' % (m[0], m[1]))
    ctx.map('panic descriptions', [('let x = 1 / 0', (11, 'division by zero')), ('std.panic(3)', (10, None)) if False else ('let x = 9223372036854775807 + 1', (29, 'integer overflow'))], desc)
    # nested catches, catch in arguments, loops of catches
    ctx.table('nesting', [
      ('std.println(std.type(std.catch(function() std.catch(function() 1 / 0 end) 7 end)))', 'int\n'),
      ('let r = std.catch(function() let e = std.catch(function() 1 / 0 end) std.panic(e) end) std.println(std.type(r))', 'error\n'),
      ('let n = 0 for i in std.range(0, 2000, 1) do let r = std.catch(function() let a = 1 let b = 2 n = n + 1 std.pop([]) end) end std.println(n)', '2000\n'),
      ('function f(n) if n == 0 then 1 / 0 else f(n - 1) + 1 end end let c = 0 for i in std.range(0, 50, 1) do let r = std.catch(function() f(20) end) if std.type(r) == "error" then c = c + 1 end end std.println(c)', '50\n'),
      ('let a = 1 function f() let b = 2 std.catch(function() a = 5 b = 6 1 / 0 a = 7 end) b end std.println(f(), a)', '6\t5\n'),
      ('let i = 0 let r = std.catch(function() while true do i = i + 1 if i == 10 then nil() end end end) std.println(i, std.type(r))', '10\terror\n'),
      ('let a = [3, 1, 2] let r = std.catch(function() for x in std.iter(a) do if x == 2 then x.y end a[0] = a[0] + 1 end end) std.println(a)', '[ 5, 1, 2 ]\n'),
      ('let r = std.catch(function() return 4 end) std.println(r)', '4\n'), ('std.println(std.catch(function() end))', 'nil\n'),
      ('let r = std.catch(function() std.error("e", 2)? 1 end) std.println(r.context)', '2\n'),
      ('let f = std.catch(function() let k = 5 function() k = k + 1 k end end) std.println(f(), f())', '6\t7\n'),
      ('let d = @[c: std.catch] std.println(std.type(d.c(function() 1 / 0 end)))', 'error\n')])
    # imports
    def imp(row):
        files, src, out = row[:3]
        return ctx.expect('imports', src, out, row[3] if len(row) > 3 else 0, files=files)
    M = {'m.hsh': 'std.println("load")\nlet n = 0\n@[inc: function() n = n + 1 n end, v: [1]]\n', 'sub/a.hsh': 'std.import("b.hsh") + 1\n', 'sub/b.hsh': 'std.println("b")\n41\n', 'up.hsh': 'std.import("./sub/../sub/b.hsh")\n',
         'nilm.hsh': 'let x = 1\n', 'iso.hsh': 'let a = 100 let b = 200 let c = 300 let d = 400\na = a + 1\nfunction() a = a + 1 a end\n', 'sh.hsh': 'let std2 = 1\nlet x = "inner"\nx\n',
         'syn.hsh': 'let = 3\n', 'sem.hsh': 'std.println("ran")\ny = 3\n', 'pan.hsh': 'std.println("pan")\nlet a = 1 let b = 2 let c = 3\nfunction h(p) let l = p nil() end\nh(a)\n', 'cnt.hsh': 'std.println("cnt")\n7\n',
         'deep.hsh': 'let l = 5\nlet r = std.catch(function() std.import("pan.hsh") end)\nstd.println(std.type(r), l)\nlet out = [l]\nout\n', 'fn.hsh': 'function(f) let z = 3 f(z) end\n', 'ret.hsh': '5\nlet a = 1\n'}
    ctx.map('imports', [
      (M, 'let a = std.import("m.hsh")\nlet b = std.import("./m.hsh")\nlet c = std.import("sub/../m.hsh")\nstd.println(a.inc(), b.inc(), c.inc(), a == b)\na.v[0] = 9\nstd.println(c.v[0])\n', 'load\n1\t2\t3\ttrue\n9\n'),
      (M, 'std.println(std.import("sub/a.hsh"), std.import("up.hsh"))', 'b\n42\t41\n'), (M, 'std.println(std.import("nilm.hsh"), std.import("ret.hsh"))', 'nil\tnil\n'),
      (M, 'let a = 1 let b = 2 let c = 3\nlet f = std.import("iso.hsh")\nstd.println(f(), f(), a, b, c)\nfunction g(x, y) let z = std.import("iso.hsh") std.println(x, y, z(), a) end g(7, 8)\n', '102\t103\t1\t2\t3\n7\t8\t104\t1\n'),
      (M, 'let x = "outer"\nstd.println(std.import("sh.hsh"), x)\n', 'inner\touter\n'),
      (M, 'let k = 5\nfor i in std.range(0, 3, 1) do\n let r = std.catch(function() let q = 1 std.import("pan.hsh") end)\n std.println(std.type(r), k, i)\nend\n', 'pan\nerror\t5\t0\npan\nerror\t5\t1\npan\nerror\t5\t2\n'),
      (M, 'let k = 5\nlet r = std.catch(function() std.import("syn.hsh") end)\nlet s = std.catch(function() std.import("sem.hsh") end)\nlet u = std.catch(function() std.import("none.hsh") end)\nstd.println(std.type(r), std.type(s), std.type(u), k)\nstd.println(std.import("cnt.hsh"), std.import("cnt.hsh"))\n', 'error\terror\terror\t5\ncnt\n7\t7\n'),
      (M, 'let k = 3\nstd.println(std.import("deep.hsh")[0], k)\n', 'pan\nerror\t5\n5\t3\n'),
      (M, 'let k = 3\nfunction f(a, b, c) std.println(a, b, c, k) end\nf(1, std.import("cnt.hsh"), 2)\nf(1, std.type(std.catch(function() f(8, std.import("pan.hsh"), 9) end)), 2)\n', 'cnt\n1\t7\t2\t3\npan\n1\terror\t2\t3\n'),
      (M, 'let k = 3\nlet f = std.import("fn.hsh")\nstd.println(f(function(x) k = k + x k end), k)\nlet r = std.catch(function() f(function(x) nil() end) end)\nstd.println(std.type(r), k, f(function(x) x end))\n', '6\t6\nerror\t6\t3\n'),
      (M, 'std.println(1)\nstd.import("pan.hsh")\nstd.println(2)\n', '1\npan\n', 127), (M, 'std.println(1)\nstd.import("syn.hsh")\nstd.println(2)\n', '1\n', 127), (M, 'std.println(1)\nstd.import("sem.hsh")\nstd.println(2)\n', '1\n', 127),
    ], imp)
    # a failed import is tried again: the module appears, or is repaired, in between
    def again(_):
        src = ('let k = 5\nfunction get() std.catch(function() std.import("late.hsh") end) end\nstd.println(std.type(get()), k)\n{ sh -c "echo \'let = 1\' > late.hsh" }\nstd.println(std.type(get()), k)\n'
               '{ sh -c "echo \'std.println(9) std.panic(1)\' > late.hsh" }\nstd.println(std.type(get()), k)\n{ sh -c "echo \'std.println(8) 77\' > late.hsh" }\nstd.println(get(), get(), k)\n')
        return ctx.expect('imports', src, 'error\t5\nerror\t5\n9\nerror\t5\n8\n77\t77\t5\n')
    ctx.map('imports', [0], again)
    # random modules
    def rnd(i):
        r = random.Random((ctx.seed, 'imp', i).__repr__())
        n = r.randint(2, 5); files = {}; out = []
        body = {}
        for j in range(n):
            loc = r.randint(0, 6); bad = r.random() < 0.35
            src = ''.join('let l%d = %d\n' % (k, 1000 * j + k) for k in range(loc)) + 'std.println("m%d")\n' % j
            if bad: src += r.choice(['nil()\n', 'let z = [1, 2, 1 / 0]\n', 'function w(a, b) let c = a nil() end\nw(1, 2)\n', '(std.panic)("x")\n'.replace('(std.panic)', 'std.panic')])
            else: src += 'let s = %d%s\n@[get: function() s = s + 1 s end]\n' % (j, ''.join(' + l%d' % k for k in range(loc)))
            files['m%d.hsh' % j] = src; body[j] = (loc, bad)
        src = 'let a = 1 let b = 2\nfunction f(p, q, s) let t = p std.println(p, q, s, t, a, b) end\n'
        st = {}
        for step in range(r.randint(4, 10)):
            j = r.randrange(n); loc, bad = body[j]
            src += 'let v%d = std.catch(function() let x = 1 std.import("m%d.hsh") end)\nf(%d, if std.type(v%d) == "error" then "e" else v%d.get() end, %d)\n' % (step, j, step, step, step, step * 2)
            if bad or j not in st: out.append('m%d' % j)
            if bad: q = 'e'
            else:
                if j not in st: st[j] = j + sum(1000 * j + k for k in range(loc))
                st[j] += 1; q = str(st[j])
            out.append('%d\t%s\t%d\t%d\t1\t2' % (step, q, step * 2, step))
        return ctx.expect('random modules', src, '\n'.join(out) + '\n', files=files)
    ctx.map('random modules', range(ctx.scale(100, 1500)), rnd)
    lang.differential(ctx, 'programs', ctx.scale(600, 8000), dict(catch=0.7, panics=0.08, calls=0.6, closures=0.4, trace=0.1, depth=4, stmts=6))
