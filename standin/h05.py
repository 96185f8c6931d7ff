from lang import *
import lang
from h02 import A, D, E, F, B
def run(ctx):
    T = [
     # block values
     ('let x = if true then 1 end std.println(x)', '1\n'), ('let x = if false then 1 end std.println(x)', 'nil\n'), ('let x = if true then end std.println(x)', 'nil\n'),
     ('let x = if true then let y = 2 y end std.println(x)', '2\n'), ('let x = if true then 5 let y = 2 end std.println(x)', 'nil\n'), ('let y let x = if true then 5 y = 2 end std.println(x, y)', 'nil\t2\n'),
     ('let x = if true then 5 while false do end end std.println(x)', 'nil\n'), ('let x = if true then 5 for i in std.range(0, 2, 1) do i end end std.println(x)', 'nil\n'),
     ('function f() end std.println(f())', 'nil\n'), ('function f() 3 end std.println(f())', '3\n'), ('function f() 3 let z = 4 end std.println(f())', 'nil\n'),
     ('function f() return end std.println(f())', 'nil\n'), ('function f() return 4 end std.println(f())', '4\n'), ('function f() if true then return 4 end 5 end std.println(f())', '4\n'),
     ('function f() if false then return 4 end 5 end std.println(f())', '5\n'),
     ('function f() while true do return 4 end 5 end std.println(f())', '4\n'), ('function f() for i in std.range(0, 9, 1) do if i == 3 then return i end end 5 end std.println(f())', '3\n'),
     ('function f() for i in std.range(0, 9, 1) do while true do if i == 3 then return i end break end end 5 end std.println(f())', '3\n'),
     # if selects exactly one
     ('if true then std.println(1) else std.println(2) end', '1\n'), ('if false then std.println(1) else std.println(2) end', '2\n'),
     ('if false then std.println(1) elseif true then std.println(2) else std.println(3) end', '2\n'), ('if false then std.println(1) elseif false then std.println(2) else std.println(3) end', '3\n'),
     ('if false then std.println(1) elseif false then std.println(2) elseif true then std.println(3) end', '3\n'), ('std.println(if false then 1 elseif false then 2 end)', 'nil\n'),
     ('if true then std.println(1) elseif true then std.println(2) else std.println(3) end', '1\n'),
     # loops
     ('let i = 0 while i < 3 do std.println(i) i = i + 1 end std.println("e", i)', '0\n1\n2\ne\t3\n'), ('while false do std.println(1) end', ''),
     ('let i = 0 while true do i = i + 1 if i == 4 then break end std.println(i) end', '1\n2\n3\n'),
     ('for i in std.range(0, 3, 1) do for j in std.range(0, 3, 1) do if j == 1 then break end std.println(i, j) end end', '0\t0\n1\t0\n2\t0\n'),
     ('let i = 0 while i < 2 do i = i + 1 let j = 0 while true do j = j + 1 if j == 2 then break end end std.println(i, j) end', '1\t2\n2\t2\n'),
     ('for i in std.range(0, 3, 1) do let f = function() for j in std.range(0, 5, 1) do if j == 1 then break end end 7 end std.println(f()) end', '7\n7\n7\n'),
     ('let n = 0 let x = true while x do n = n + 1 x = false end std.println(n)', '1\n'),
     ('let i = 0 while if i < 2 then true else false end do i = i + 1 end std.println(i)', '2\n'),
     # return only leaves the innermost function
     ('function f() let g = function() return 1 end g() 2 end std.println(f())', '2\n'), ('function f() let g = function() return 1 end return g() + 10 end std.println(f())', '11\n'),
     ('function f() for i in std.range(0, 2, 1) do (function() return 1 end)() std.println(i) end 3 end std.println(f())', None),
     ('function f() std.catch(function() return 1 end) 2 end std.println(f())', '2\n'),
     # try
     ('function f(x) x? "v" end std.println(f(1), f(nil), f(false), f(""), f([]), std.type(f(std.error("e", 1))))', 'v\tv\tv\tv\tv\terror\n'),
     ('function f(x) let r = x? r end std.println(f(3), f(std.error("e", 9)).context)', '3\t9\n'),
     ('function f() for i in std.range(0, 5, 1) do if i == 2 then std.error("e", i)? end end 7 end std.println(f().context)', '2\n'),
     ('function f() while true do let x = [1, std.error("e", 3)?] end end std.println(f().context)', '3\n'),
     ('function f() return std.error("a", 1)? end function g() let x = f() 5 end std.println(g())', '5\n'),
     # nested value blocks
     ('let x = if true then if false then 1 else if true then 2 else 3 end end end std.println(x)', '2\n'),
     ('function f(n) if n == 0 then "z" elseif n == 1 then "o" else "m" end end std.println(f(0), f(1), f(2))', 'z\to\tm\n'),
     ('function f(n) while n > 0 do n = n - 1 if n == 3 then return "three" end end "done" end std.println(f(2), f(10))', 'done\tthree\n'),
    ]
    T = [t for t in T if t[1] is not None]
    for v in ('nil', '1', '0', '1.0', '"true"', "'a'", '[]', '@[]', 'std.len', 'std.error("e", 1)'):
        T += [('std.println(1)\nif %s then std.println(2) else std.println(3) end\n' % v, '1\n', 127, 'line 2.*not a boolean'), ('std.println(1)\nwhile %s do std.println(2) end\n' % v, '1\n', 127, 'line 2.*not a boolean')]
        T.append(('let i = 0\nwhile if i < 2 then true else %s end do i = i + 1 std.println(i) end' % v, '1\n2\n', 127, 'line 2.*not a boolean'))
        if v != 'std.len': T.append(('for x in %s do std.println(2) end\n' % v, '', 127, 'line 1.*unexpected type'))
    ctx.table('control', T)
    lang.differential(ctx, 'programs', ctx.scale(1500, 12000), dict(loops=0.8, trace=0.15, stmts=7, depth=4, tri=0.2, catch=0.1, closures=0.15))
    import flows
    flows.run_flows(ctx, 'escapes in every position', ctx.scale(600, 6000))
