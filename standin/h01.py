import itertools
from lang import *
import lang
X = [0, 1, -1, 2, -2, 3, 7, -7, 10, 2**31, -2**31, 2**32 + 1, 3037000499, 3037000500, -3037000500, 2**53, 2**53 + 1, 2**62, -2**62, 2**62 + 1, MAX // 3, MAX - 1, MAX, MIN + 1, MIN]
F = [0.0, 1.0, -1.5, 0.1, 2.5, 1e16, 123456.75, -3.0]
OTHER = [L(None), L(True), L(b'a'), L(b''), ('arr', [L(1)]), ('dict', [('a', L(1))]), ('fn', [], [('expr', L(1))]), std('error', L(b'e'), L(1))]
def caught(e):
    return std('catch', ('fn', [], [('ret', e)]))
def batch(rows):
    """One script printing each expression's value (or that it panicked)."""
    prog = [('fndef', 'sh', ['v'], [('expr', ('if', ('bin', '==', std('type', V('v')), L(b'error')), [('expr', L(b'panic'))], [('expr', V('v'))]))])]
    for e in rows: prog.append(pr(('call', V('sh'), [caught(e)])))
    return prog
def run(ctx):
    rng = ctx.rng
    rows = []
    for op in '+-*/%':
        for a, b in itertools.product(X, X): rows.append(('bin', op, L(a), L(b)))
        for a, b in itertools.product(F, F):
            if not (op in '/%' and b == 0): rows.append(('bin', '==', ('bin', op, L(Flt(a)), L(Flt(b))), L(Interp().binop(('bin', op, L(Flt(a)), L(Flt(b))), None, None))))
        for o in OTHER:
            for v in (L(1), L(Flt(1.0)), o): rows += [('bin', op, o, v), ('bin', op, v, o)]
        for a in (1, 0, -3):
            for f in (1.0, 0.0, 2.5): rows += [('bin', op, L(a), L(Flt(f))), ('bin', op, L(Flt(f)), L(a))]
    for a in X: rows += [('un', '-', L(a)), ('un', '-', ('un', '-', L(a)))]
    for f in F: rows.append(('un', '-', L(Flt(f))))
    for o in OTHER: rows.append(('un', '-', o))
    for _ in range(ctx.scale(1500, 20000)):
        op = rng.choice('+-*/%')
        a = rng.randint(MIN, MAX) >> rng.randint(0, 62); b = rng.randint(MIN, MAX) >> rng.randint(0, 62)
        if rng.random() < 0.3: b = rng.choice(X)
        if rng.random() < 0.1 and op in '+-': b = (MAX if rng.random() < .5 else MIN) - (a if op == '+' else -a) + rng.randint(-1, 1)
        if not MIN <= b <= MAX: b = 1
        rows.append(('bin', op, L(a), L(b)))
    progs = [batch(rows[i:i + 60]) for i in range(0, len(rows), 60)]
    def one(prog):
        out, k = expected(prog, 10**6)
        return ctx.expect('operand pairs', source(prog), out)
    ctx.map('operand pairs', progs, one)
    # IEEE specials
    inf = '(1.0 / 0.0)'
    ctx.table('float specials', [
        ('let i = 1.0 / 0.0 let n = 0.0 / 0.0 std.println(i, -i, n == n, i - i == i - i, i > 1.0, 5.5 % 2.0, -5.5 % 2.0, 1.0 % 0.0 == 1.0)', 'inf\t-inf\tfalse\tfalse\ttrue\t1.5\t-1.5\tfalse\n'),
        ('std.println(0.1 + 0.2 == 0.3, 0.1 + 0.2 > 0.3, 1e308 * 10.0 == 1.0 / 0.0, 9007199254740992.0 + 1.0 == 9007199254740992.0)', 'false\ttrue\ttrue\ttrue\n')])
    # uncaught: panic, exit status 127
    ctx.table('uncaught', [('std.println(1)\nlet x = %s\nstd.println(2)\n' % e, '1\n', 127, r'line 2, .*%s' % m) for e, m in [
        ('9223372036854775807 + 1', 'integer overflow'), ('-9223372036854775807 - 2', 'integer overflow'), ('4611686018427387904 * 2', 'integer overflow'),
        ('1 / 0', 'division by zero'), ('1 % 0', 'division by zero'), ('-(-9223372036854775807 - 1)', 'integer overflow'), ('1 + 1.0', 'unexpected type'), ('"a" - "b"', 'unexpected type')]])
    lang.differential(ctx, 'programs', ctx.scale(400, 4000), dict(extreme=0.3, trace=0.05, closures=0.05, colls=0, stmts=6, panics=0.05))
