import itertools
from lang import *
import lang
from h02 import A, D, E, F, B
# every operation, with operands that are traced, panic, return through `?`, or break
T = lambda k, e: ('call', V('t'), [L(k), e])
def outcomes(k, good):
    """The possible outcomes of operand k: a good value, another type, a panic, a `?` return."""
    return [T(k, good), T(k, L(None)), ('call', V('boom'), [L(k)]), ('try', ('call', V('bad'), [L(k)]))]
PRE = [('fndef', 't', ['k', 'v'], [pr(L(b'#'), V('k')), ('expr', V('v'))]),
       ('fndef', 'boom', ['k'], [pr(L(b'!'), V('k')), ('expr', std('panic', L(b'x')))]),
       ('fndef', 'bad', ['k'], [pr(L(b'?'), V('k')), ('expr', std('error', L(b'e'), V('k')))])]
def shapes():
    for op in ('+', '-', '*', '/', '%', '<', '<=', '>', '>=', '==', '!='):
        yield op, [L(6), L(3)], lambda a, op=op: ('bin', op, *a)
    yield '++', [L(b'a'), L(b'b')], lambda a: ('bin', '++', *a)
    for op in ('and', 'or'):
        for x in (True, False):
            for y in (True, False): yield op, [L(x), L(y)], lambda a, op=op: ('bin', op, *a)
    yield 'neg', [L(6)], lambda a: ('un', '-', *a)
    yield 'not', [L(True)], lambda a: ('un', 'not', *a)
    yield 'arr', [L(1), L(2), L(3)], lambda a: ('idx', ('arr', list(a)), L(0))
    yield 'dict', [L(1), L(2), L(3)], lambda a: ('dot', ('dict', list(zip('bac', a))), 'a')
    yield 'idx', [A(L(1), L(2)), L(1)], lambda a: ('idx', *a)
    yield 'dot', [D(('a', L(1)))], lambda a: ('dot', a[0], 'a')
    yield 'call', [('fn', ['x', 'y', 'z'], [pr(L(b'body')), ('expr', V('y'))]), L(1), L(2), L(3)], lambda a: ('call', a[0], list(a[1:]))
    yield 'call0', [('fn', [], [pr(L(b'body')), ('expr', L(1))])], lambda a: ('call', a[0], [])
    yield 'method', [D(('m', ('fn', ['x'], [pr(L(b'body')), ('expr', V('x'))]))), L(1)], lambda a: ('call', ('dot', a[0], 'm'), [a[1]])
    yield 'native', [L(b'x'), L(1), L(b'y')], lambda a: std('println', *a)
    yield 'try', [L(1)], lambda a: ('try', a[0])
    yield 'if', [L(True)], lambda a: ('if', a[0], [('expr', L(1))], [('expr', L(2))])
def run(ctx):
    jobs = []
    for name, goods, mk in shapes():
        for combo in itertools.product(*[outcomes(i + 1, g) for i, g in enumerate(goods)]):
            body = [('let', 'o', L(0)), ('asg', V('o'), mk(combo)), pr(L(b'done'), std('type', V('o'))), ('expr', L(b'end'))]
            prog = PRE + [('let', 'state', L(1)), ('let', 'r', std('catch', ('fn', [], body))), pr(std('type', V('r')), V('state'))]
            jobs.append((name, prog))
    # assignments: right-hand side, then object, then field; no effect when one of them fails
    for obj, fld in ((A(L(1), L(2)), L(1)), (D(('a', L(1))), L(b'b'))):
        for r, o, f in itertools.product(outcomes(1, L(9)), [T(2, V('ob')), T(2, L(None)), ('call', V('boom'), [L(2)]), ('try', ('call', V('bad'), [L(2)]))], outcomes(3, fld)):
            prog = PRE + [('let', 'ob', obj), ('let', 'r', std('catch', ('fn', [], [('asg', ('idx', o, f), r), pr(L(b'done'))]))), pr(std('type', V('r')), B('==', V('ob'), obj), std('len', V('ob')))]
            jobs.append(('assign', prog))
    # break out of an operand of each operation
    def one(j):
        name, prog = j
        out, k = expected(prog, 10**6)
        return ctx.expect('operation outcomes', source(prog), out)
    seen = set(); uniq = []
    for j in jobs:
        s = source(j[1])
        if s not in seen: seen.add(s); uniq.append(j)
    ctx.map('operation outcomes', uniq, one)
    tr = 'function t(k, v) std.println("#", k) v end\n'
    brk = 'if true then break end'
    ops = [('%s + t(9, 1)' % ('(' + brk + ')'), ''), ('t(1, 1) + (%s) + t(9, 1)' % brk, '#\t1\n'), ('t(1, true) and (%s) and t(9, true)' % brk, '#\t1\n'), ('t(1, false) or (%s)' % brk, '#\t1\n'),
           ('[t(1, 1), (%s), t(9, 1)]' % brk, '#\t1\n'), ('@[a: t(1, 1), b: (%s), c: t(9, 1)]' % brk, '#\t1\n'), ('t(t(1, 1), (%s))' % brk, '#\t1\n'), ('(%s)(t(9, 1))' % brk, ''),
           ('t(1, [1])[(%s)]' % brk, '#\t1\n'), ('(%s)[t(9, 1)]' % brk, ''), ('-(%s)' % brk, ''), ('not (%s)' % brk, ''), ('if (%s) then t(9, 1) end' % brk, ''), ('t(1, 1) == (%s)' % brk, '#\t1\n'),
           ('t(1, "a") ++ (%s) ++ t(9, "b")' % brk, '#\t1\n'), ('t(1, 1) < (%s)' % brk, '#\t1\n'), ('std.println(t(1, 1), (%s))' % brk, '#\t1\n')]
    rows = []
    for e, out in ops:
        rows.append((tr + 'let x = 5\nlet n = 0\nwhile n < 3 do\n n = n + 1\n x = %s\n std.println("no")\nend\nstd.println(x, n)\n' % e, out + '5\t1\n'))
        rows.append((tr + 'let a = [5]\nfor i in std.range(0, 3, 1) do\n a[t(8, 0)] = %s\n std.println("no")\nend\nstd.println(a[0])\n' % e, out + '5\n'))
    rows += [(tr + 'let a = [5]\nwhile true do\n t(2, a)[(%s)] = t(1, 1)\nend\nstd.println(a[0])\n' % brk, '#\t1\n#\t2\n5\n'),
             (tr + 'let a = [5]\nwhile true do\n (%s)[t(9, 0)] = t(1, 1)\nend\nstd.println(a[0])\n' % brk, None)]
    rows[-1] = (tr + 'let a = [5]\nwhile true do\n a[t(2, 0) + (%s)] = t(1, 1)\nend\nstd.println(a[0])\n' % brk, '#\t1\n#\t2\n5\n')
    # `?` returns from the function only, values by ?
    rows += [('function f() std.println(1, std.error("e", 2)?, std.println("no")) end\nlet r = f()\nstd.println(std.type(r), r.context)\n', 'error\t2\n'),
             ('function f(x) let y = x? std.println("after") y end\nstd.println(f(3), f(nil), f(false))\n', 'after\nafter\nafter\n3\tnil\tfalse\n'),
             (tr + 'let d = @[]\nd[t(2, "k")] = t(1, 5)\nstd.println(d.k)\n', '#\t1\n#\t2\n5\n'),
             (tr + 'let c = 0\nfunction n() c = c + 1 c end\nstd.println(n() - n() * n(), [n(), n()], n() + n())\n', '-5\t[ 4, 5 ]\t13\n'),
             (tr + 'let c = 0\nfunction n() c = c + 1 c end\nlet a = [0, 0, 0, 0]\na[n()] = n()\nstd.println(a)\n', '[ 0, 0, 1, 0 ]\n')]
    ctx.table('breaks and returns', rows)
    lang.differential(ctx, 'programs', ctx.scale(800, 8000), dict(trace=0.5, tri=0.3, colls=0.3, panics=0.04, catch=0.2))
    import flows
    flows.run_flows(ctx, 'escapes in every position', ctx.scale(400, 4000))
