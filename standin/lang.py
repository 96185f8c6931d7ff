"""A reference interpreter and program generator for the Hush language proper.

Used only as oracle of the bounded stand-in (differential runs of the real binary) and to
find a failing input for a failed obligation.  Programs are generated as trees, printed to
source, run by the real binary, and evaluated here.
"""
import random, re
MIN, MAX = -2**63, 2**63 - 1

class Panic(Exception):
    def __init__(s, kind, line=None): s.kind, s.line = kind, line
class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Cell:
    __slots__ = ('v',)
    def __init__(s, v=None): s.v = v
class Fn:
    def __init__(s, params, body, env, node): s.params, s.body, s.env, s.node = params, body, env, node
class Native:
    def __init__(s, name, f): s.name, s.f = name, f
class Err:
    def __init__(s, d, c): s.d, s.c = d, c
class Arr:
    def __init__(s, v): s.v = v
class Dct:
    def __init__(s): s.v = {}
class Flt(float): pass
class Byte(int): pass
class Act:
    """One activation of a function (or of the script)."""
    def __init__(s, self_): s.cells = {}; s.self_ = self_
    def cell(s, key):
        c = s.cells.get(key)
        if c is None: c = s.cells[key] = Cell()
        return c
class Budget(Exception): pass

def tname(v):
    if v is None: return 'nil'
    if isinstance(v, bool): return 'bool'
    if isinstance(v, Byte): return 'char'
    if isinstance(v, int): return 'int'
    if isinstance(v, float): return 'float'
    if isinstance(v, bytes): return 'string'
    return {Arr: 'array', Dct: 'dict', Fn: 'function', Native: 'function', Err: 'error'}[type(v)]
def key(v):
    """A hashable image of a value, equal exactly when the hush values are equal."""
    t = tname(v)
    if t == 'array': return (t, tuple(key(x) for x in v.v))
    if t == 'dict': return (t, frozenset((k, key(x[1])) for k, x in v.v.items()))
    if t in ('function',): return (t, id(v))
    if t == 'error': return (t, v.d, key(v.c))
    if t == 'float': return (t, float(v) + 0.0 if v == v else object())
    return (t, v)
def eq(a, b):
    return key(a) == key(b)
def showf(v):
    if v != v: return 'NaN'
    r = repr(v)
    if 'e' not in r: return r
    m, e = r.split('e')
    if 1e-5 <= abs(v) < 1e-4:
        from decimal import Decimal
        return format(Decimal(r), 'f')
    return '%se%d' % (m[:-2] if m.endswith('.0') else m, int(e))
def show(v, top=True):
    t = tname(v)
    if t == 'nil': return b'nil'
    if t == 'bool': return b'true' if v else b'false'
    if t == 'int': return str(int(v)).encode()
    if t == 'float': return showf(float(v)).encode()
    if t == 'string': return v if top else b'"' + v.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'
    if t == 'char': return bytes([v]) if top else b"'" + bytes([v]) + b"'"
    if t == 'array':
        return b'[' + (b' ' + b', '.join(show(x, False) for x in v.v) if v.v else b'') + b' ]'
    if t == 'error': return b'error: ' + show(v.d, False) + b' (' + show(v.c, False) + b')'
    return b'<' + t.encode() + b'>'

class Interp:
    def __init__(self, fuel=20000):
        self.out = []; self.fuel = fuel; self.depth = 0
        self.std = Dct()
        for n, f in [('println', self.println), ('catch', self.catch), ('len', self.len_), ('push', self.push), ('pop', self.pop),
                     ('range', self.range_), ('iter', self.iter_), ('type', self.type_), ('error', self.error_), ('panic', self.panic_), ('substr', self.substr), ('is_empty', self.is_empty),
                     ('contains', self.contains), ('sort', self.sort)]:
            self.std.v[key(n.encode())] = (n.encode(), Native(n, f))
        self.node = None
    # natives
    def println(self, *a):
        self.out.append(b'\t'.join(show(x) for x in a)); return None
    def catch(self, *a):
        self.arity(a, 1)
        if tname(a[0]) != 'function': raise Panic('type')
        d = self.depth
        try: return self.call(a[0], [], None)
        except Panic as p:
            self.depth = d
            return Err(b'caught', b'panic')
    def arity(self, a, n):
        if len(a) != n: raise Panic('args')
    def len_(self, *a):
        self.arity(a, 1)
        t = tname(a[0])
        if t == 'string': return len(a[0])
        if t in ('array', 'dict'): return len(a[0].v)
        raise Panic('type')
    def is_empty(self, *a):
        return self.len_(*a) == 0
    def contains(self, *a):
        self.arity(a, 2)
        t = tname(a[0])
        if t == 'array': return any(eq(x, a[1]) for x in a[0].v)
        if t == 'dict': return key(a[1]) in a[0].v
        if t == 'string':
            if tname(a[1]) != 'char': raise Panic('type')
            return int(a[1]) in a[0]
        raise Panic('type')
    def sort(self, *a):
        self.arity(a, 1)
        if tname(a[0]) != 'array': raise Panic('type')
        a[0].v.sort(); return None      # used on arrays of one comparable type
    def push(self, *a):
        self.arity(a, 2)
        if tname(a[0]) != 'array': raise Panic('type')
        a[0].v.append(a[1]); return None
    def pop(self, *a):
        self.arity(a, 1)
        if tname(a[0]) != 'array': raise Panic('type')
        if not a[0].v: raise Panic('empty')
        return a[0].v.pop()
    def substr(self, s, i, n):
        if i < 0 or n < 0 or i + n > len(s): return None
        return s[i:i+n]
    def it(self, nxt):
        def f(*a):
            self.arity(a, 0)
            d = Dct()
            try:
                v = next(nxt)
                d.v[key(b'finished')] = (b'finished', False); d.v[key(b'value')] = (b'value', v)
            except StopIteration:
                d.v[key(b'finished')] = (b'finished', True)
            return d
        return Native('it', f)
    def range_(self, *a):
        self.arity(a, 3)
        if any(tname(x) not in ('int',) for x in a): raise Panic('type')
        f, t, s = a
        def g():
            x = f
            if s > 0:
                while x < t: yield x; x += s
            else:
                while x > t: yield x; x += s
        return self.it(g())
    def iter_(self, *a):
        self.arity(a, 1)
        t = tname(a[0])
        if t == 'array':
            def g():
                i = 0
                while i < len(a[0].v): yield a[0].v[i]; i += 1
            return self.it(g())
        if t == 'string': return self.it(Byte(b) for b in a[0])
        raise Panic('type')
    def type_(self, *a):
        self.arity(a, 1); return tname(a[0]).encode()
    def error_(self, *a):
        self.arity(a, 2)
        if tname(a[0]) != 'string': raise Panic('type')
        return Err(a[0], a[1])
    def panic_(self, *a):
        self.arity(a, 1); raise Panic('user')
    # evaluation
    def tick(self):
        self.fuel -= 1
        if self.fuel < 0: raise Budget()
    def lookup(self, env, n):
        while env is not None:
            if env[0] == n: return env[1]
            env = env[2]
        raise KeyError(n)
    def run(self, block):
        act = Act(None)
        env = ('std', Cell(self.std), None)
        self.block(block, act, env)
    def block(self, blk, act, env):
        v = None
        for s in blk:
            v, env = self.stmt(s, act, env)
        return v
    def stmt(self, s, act, env):
        self.tick()
        k = s[0]
        try:
            if k == 'let':
                c = act.cell(id(s)); env = (s[1], c, env)
                v = self.ex(s[2], act, env) if s[2] is not None else None
                c.v = v
                return None, env
            if k == 'fndef':
                c = act.cell(id(s)); env = (s[1], c, env)
                c.v = Fn(s[2], s[3], env, s)
                return None, env
            if k == 'asg':
                v = self.ex(s[2], act, env)
                lv = s[1]
                if lv[0] == 'var': self.lookup(env, lv[1]).v = v
                else:
                    o = self.ex(lv[1], act, env)
                    f = lv[2].encode() if lv[0] == 'dot' else self.ex(lv[2], act, env)
                    t = tname(o)
                    if t == 'dict': 
                        kk = key(f); o.v[kk] = (o.v[kk][0] if kk in o.v else f, v)
                    elif t == 'array':
                        if tname(f) != 'int': raise Panic('type')
                        if not 0 <= f < len(o.v): raise Panic('index')
                        o.v[f] = v
                    elif t == 'error': raise Panic('readonly')
                    else: raise Panic('type')
                return None, env
            if k == 'ret': raise Ret(self.ex(s[1], act, env) if s[1] is not None else None)
            if k == 'break': raise Brk()
            if k == 'while':
                while True:
                    self.tick()
                    c = self.ex(s[1], act, env)
                    if tname(c) != 'bool': raise Panic('cond')
                    if not c: break
                    try: self.block(s[2], act, env)
                    except Brk: break
                return None, env
            if k == 'for':
                it = self.ex(s[2], act, env)
                if tname(it) != 'function': raise Panic('type')
                c = act.cell(id(s)); env2 = (s[1], c, env)
                while True:
                    self.tick()
                    d = self.call(it, [], None)
                    if tname(d) != 'dict': raise Panic('type')
                    if key(b'finished') not in d.v: raise Panic('index')
                    fin = d.v[key(b'finished')][1]
                    if tname(fin) != 'bool': raise Panic('type')
                    if fin: break
                    if key(b'value') not in d.v: raise Panic('index')
                    c.v = d.v[key(b'value')][1]
                    try: self.block(s[3], act, env2)
                    except Brk: break
                return None, env
            return self.ex(s[1], act, env), env
        except Panic as p:
            if p.line is None: p.line = s
            raise
    def get(self, o, f):
        t = tname(o)
        if t == 'dict':
            if key(f) not in o.v: raise Panic('index')
            return o.v[key(f)][1]
        if t in ('array', 'string'):
            if tname(f) != 'int': raise Panic('type')
            s = o.v if t == 'array' else o
            if not 0 <= f < len(s): raise Panic('index')
            return s[f] if t == 'array' else Byte(s[f])
        if t == 'error':
            if eq(f, b'description'): return o.d
            if eq(f, b'context'): return o.c
            raise Panic('index')
        raise Panic('type')
    def ex(self, e, act, env, want_self=False):
        self.tick()
        k = e[0]
        if k == 'lit': r = e[1]
        elif k == 'var': r = self.lookup(env, e[1]).v
        elif k == 'self': r = act.self_
        elif k == 'arr': r = Arr([self.ex(x, act, env) for x in e[1]])
        elif k == 'dict':
            r = Dct()
            for n, x in e[1]: r.v[key(n.encode())] = (n.encode(), self.ex(x, act, env))
        elif k == 'fn': r = Fn(e[1], e[2], env, e)
        elif k == 'un':
            v = self.ex(e[2], act, env); t = tname(v)
            if e[1] == '-':
                if t == 'int':
                    r = -v
                    if r > MAX: raise Panic('overflow')
                elif t == 'float': r = Flt(-v)
                else: raise Panic('type')
            else:
                if t != 'bool': raise Panic('type')
                r = not v
        elif k == 'try':
            v = self.ex(e[1], act, env)
            if tname(v) == 'error': raise Ret(v)
            r = v
        elif k == 'bin': r = self.binop(e, act, env)
        elif k == 'if':
            c = self.ex(e[1], act, env)
            if tname(c) != 'bool': raise Panic('cond')
            r = self.block(e[2] if c else e[3], act, env)
        elif k in ('idx', 'dot'):
            o = self.ex(e[1], act, env)
            f = e[2].encode() if k == 'dot' else self.ex(e[2], act, env)
            r = self.get(o, f)
            if want_self: return r, o
        elif k == 'call':
            f, o = self.ex(e[1], act, env, True)
            if tname(f) != 'function': raise Panic('call')
            args = [self.ex(x, act, env) for x in e[2]]
            r = self.call(f, args, o)
        else: raise AssertionError(k)
        return (r, None) if want_self else r
    def call(self, f, args, self_):
        self.tick()
        if isinstance(f, Native): return f.f(*args)
        if len(args) != len(f.params): raise Panic('args')
        self.depth += 1
        if self.depth > 60: raise Budget()
        act = Act(self_); env = f.env
        for i, (p, a) in enumerate(zip(f.params, args)):
            c = act.cell((id(f.node), i)); c.v = a; env = (p, c, env)
        try: r = self.block(f.body, act, env)
        except Ret as x: r = x.v
        self.depth -= 1
        return r
    def binop(self, e, act, env):
        op = e[1]
        a = self.ex(e[2], act, env); ta = tname(a)
        if op in ('and', 'or'):
            if ta != 'bool': raise Panic('type')
            if a == (op == 'or'): return a
            b = self.ex(e[3], act, env)
            if tname(b) != 'bool': raise Panic('type')
            return b
        b = self.ex(e[3], act, env); tb = tname(b)
        if op == '==': return eq(a, b)
        if op == '!=': return not eq(a, b)
        if op == '++':
            if ta != 'string' or tb != 'string': raise Panic('type')
            return a + b
        if op in ('<', '<=', '>', '>='):
            if ta != tb or ta not in ('int', 'float', 'char', 'string'): raise Panic('type')
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if ta != tb or ta not in ('int', 'float'): raise Panic('type')
        if ta == 'float':
            import math
            try:
                return Flt({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '%': lambda: math.fmod(a, b)}[op]())
            except (ZeroDivisionError, ValueError): return Flt('nan') if a == 0 or a != a or op == '%' else Flt(math.copysign(float('inf'), a) * math.copysign(1, b))
        if op in '/%':
            if b == 0 or (a == MIN and b == -1): raise Panic('div0')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            return q if op == '/' else a - q * b
        r = a + b if op == '+' else a - b if op == '-' else a * b
        if not MIN <= r <= MAX: raise Panic('overflow')
        return r

# ---------------------------------------------------------------- printing
PREC = {'or': 1, 'and': 2, '==': 3, '!=': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, '++': 5, '+': 6, '-': 6, '*': 7, '/': 7, '%': 7}
def fl(v):
    # exponents take no sign in the language: spell the exact decimal expansion
    from decimal import Decimal
    s = format(Decimal(float(v)), 'f')
    return s if '.' in s else s + '.0'
def lit(v):
    t = tname(v)
    if t == 'int':
        return str(v) if v >= 0 else ('(-%d)' % -v if v != MIN else '(-9223372036854775807 - 1)')
    if t == 'float': return fl(v) if v >= 0 else '(-%s)' % fl(-v)
    if t == 'string': return '"' + ''.join('\\' + c if c in '"\\' else {'\n': '\\n', '\t': '\\t', '\0': '\\0'}.get(c, c) for c in v.decode('latin1')) + '"'
    if t == 'char': return "'" + {10: '\\n', 9: '\\t', 0: '\\0', 39: "\\'", 92: '\\\\'}.get(int(v), chr(v)) + "'"
    return show(v).decode()
class Printer:
    def __init__(self, rng=None, noise=0.0):
        self.rng = rng or random.Random(0); self.noise = noise; self.trail = 0.0
        self.lines = []; self.line_of = {}
    def par(self, s):
        return '(' + s + ')'
    def commas(self, l):
        l = list(l)
        return ', '.join(l) + (',' if l and self.trail and self.rng.random() < self.trail else '')
    def ex(self, e, prec=0):
        s, p = self.ex_(e)
        if p < prec or (self.noise and self.rng.random() < self.noise): return self.par(s)
        return s
    def ex_(self, e):
        k = e[0]
        if k == 'lit':
            return lit(e[1]), 10
        if k == 'var': return e[1], 10
        if k == 'self': return 'self', 10
        if k == 'un': return ('-' if e[1] == '-' else 'not ') + self.ex(e[2], 8), 8
        if k == 'try': return self.ex(e[1], 9) + '?', 9
        if k == 'bin':
            p = PREC[e[1]]
            return '%s %s %s' % (self.ex(e[2], p), e[1], self.ex(e[3], p + 1)), p
        if k == 'idx': return '%s[%s]' % (self.ex(e[1], 9), self.ex(e[2])), 9
        if k == 'dot': return '%s.%s' % ((self.par if e[1][0] == 'lit' else str)(self.ex(e[1], 9)), e[2]), 9
        if k == 'call': return '%s(%s)' % (self.ex(e[1], 9), self.commas(self.ex(x) for x in e[2])), 9
        if k == 'arr': return '[' + self.commas(self.ex(x) for x in e[1]) + ']', 10
        if k == 'dict': return '@[' + self.commas('%s: %s' % (n, self.ex(x)) for n, x in e[1]) + ']', 10
        if k == 'fn': return 'function(%s) %s end' % (self.commas(e[1]), self.inline(e[2])), 10
        if k == 'if': return 'if %s then %s%s end' % (self.ex(e[1]), self.inline(e[2]), ' else ' + self.inline(e[3]) if e[3] else ''), 10
        raise AssertionError(k)
    def inline(self, blk): return ' '.join(self.st1(s) for s in blk)
    def vstmt(self, s):
        return 'if true then %s end' % s if s[0] in '([-' else s
    def st1(self, s):
        k = s[0]
        if k == 'let': return 'let ' + s[1] + (' = ' + self.ex(s[2]) if s[2] is not None else '')
        if k == 'fndef': return 'function %s(%s) %s end' % (s[1], self.commas(s[2]), self.inline(s[3]))
        if k == 'asg': return self.vstmt('%s = %s' % (self.ex_(s[1])[0], self.ex(s[2])))
        if k == 'ret': return 'return' + (' ' + self.ex(s[1]) if s[1] is not None else '')
        if k == 'break': return 'break'
        if k == 'while': return 'while %s do %s end' % (self.ex(s[1]), self.inline(s[2]))
        if k == 'for': return 'for %s in %s do %s end' % (s[1], self.ex(s[2]), self.inline(s[3]))
        return self.vstmt(self.ex(s[1]))
    def block(self, blk, ind=0):
        for s in blk:
            self.line_of[id(s)] = len(self.lines) + 1
            pre = '\t' * ind
            if s[0] == 'while':
                self.lines.append(pre + 'while %s do' % self.ex(s[1])); self.block(s[2], ind + 1); self.lines.append(pre + 'end')
            elif s[0] == 'for':
                self.lines.append(pre + 'for %s in %s do' % (s[1], self.ex(s[2]))); self.block(s[3], ind + 1); self.lines.append(pre + 'end')
            elif s[0] == 'fndef':
                self.lines.append(pre + 'function %s(%s)' % (s[1], self.commas(s[2]))); self.block(s[3], ind + 1); self.lines.append(pre + 'end')
            elif s[0] == 'expr' and s[1][0] == 'if':
                e = s[1]
                self.lines.append(pre + 'if %s then' % self.ex(e[1])); self.block(e[2], ind + 1)
                while len(e[3]) == 1 and e[3][0][0] == 'expr' and e[3][0][1][0] == 'if' and self.rng.random() < 0.7:
                    e = e[3][0][1]
                    self.lines.append(pre + 'elseif %s then' % self.ex(e[1])); self.block(e[2], ind + 1)
                if e[3]:
                    self.lines.append(pre + 'else'); self.block(e[3], ind + 1)
                self.lines.append(pre + 'end')
            else:
                self.lines.append(pre + self.st1(s))
        return self.lines
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|\d+(?:\.\d+)?(?:[eE]\d+)?|[A-Za-z_]\w*|@\[|[<>=!]=|\+\+|[^\s]', re.S)
def relayout(src, rng, tight=0.3):
    """The same tokens with other white space and comments between them."""
    out = []; prev = ''
    for t in TOK.findall(src):
        need = prev and (re.match(r'\w', prev[-1]) and re.match(r'\w', t[0]) or prev + t[0] in ('<=', '>=', '==', '++', '!=', '@[') or prev == '+' and t == '++' or (prev[0].isdigit() and t[0] == '.'))
        if not need and rng.random() < tight: pass
        else:
            out.append(''.join(rng.choice([' ', ' ', '  ', '\n', '\t', '\r\n', '\n\n', ' # c "x\n', '# let = ( end\n', '\x0c']) for _ in range(rng.choice([1, 1, 1, 2, 3]))))
            if need and out[-1].startswith('#') and False: pass
        out.append(t); prev = t
    return ''.join(out) + rng.choice(['', '\n', ' ', '# end', '# end\n'])
def source(prog, rng=None, noise=0.0, trail=0.0):
    p = Printer(rng, noise); p.trail = trail
    return '\n'.join(p.block(prog)) + '\n'

def expected(prog, fuel=20000):
    """(stdout, None | panic kind) of a program, or None when it runs too long."""
    it = Interp(fuel)
    try:
        it.run(prog); k = None
    except Panic as p: k = p.kind
    except Budget: return None
    except RecursionError: return None
    return b''.join(l + b'\n' for l in it.out), k

V = lambda n: ('var', n)
L = lambda v: ('lit', v)
def std(n, *a): return ('call', ('dot', V('std'), n), list(a))
def pr(*a): return ('expr', std('println', *a))

class Gen:
    """Random programs.  `w` gives the weights of the features a property is about."""
    def __init__(self, rng, **w):
        self.r = rng; self.w = dict(depth=3, stmts=5, trace=0.3, closures=0.3, loops=0.3, calls=0.3, panics=0.02, colls=0.2, strings=0.15, tri=0.1, shadow=0.3, selfs=0.1, catch=0.1)
        self.w.update(w); self.n = 0
    def p(self, k): return self.r.random() < self.w.get(k, 0)
    def fresh(self, pre='v'):
        self.n += 1; return '%s%d' % (pre, self.n)
    def program(self):
        self.tk = 0
        pre = [('fndef', 't', ['k', 'v'], [pr(L(b'#'), V('k')), ('expr', V('v'))])]
        scope = [{}]
        return pre + self.block(scope, self.w['depth'], fn=False, loop=False, n=self.w['stmts'] + 2) + self.dump(scope)
    def dump(self, scope):
        out = []
        for s in scope:
            for n, t in s.items():
                if t in ('int', 'bool', 'str', 'arr'): out.append(pr(L(n.encode()), V(n)))
        return out[-6:]
    def vars(self, scope, t):
        seen = set(); out = []
        for s in reversed(scope):
            for n, ty in s.items():
                if n not in seen:
                    seen.add(n)
                    if ty == t: out.append(n)
        return out
    def name(self, scope):
        if self.p('shadow') and len(scope) > 1:
            c = [n for s in scope[:-1] for n in s if n not in scope[-1] and not n.startswith('f')]
            if c: return self.r.choice(c)
        return self.fresh()
    def block(self, scope, depth, fn, loop, n=None, value=None):
        out = []
        n = n if n is not None else self.r.randint(1, max(1, self.w['stmts'] - 1))
        for _ in range(n):
            s = self.stmt(scope, depth, fn, loop)
            out += s
            if out and out[-1][0] in ('ret', 'break'): return out
        if value: out.append(('expr', self.ex(scope, value, depth - 1, fn)))
        return out
    def stmt(self, scope, depth, fn, loop):
        r = self.r; x = r.random()
        if depth <= 0: x = x * 0.5
        if x < 0.25:
            t = r.choice(['int', 'int', 'bool', 'str', 'arr'] if self.p('colls') else ['int', 'int', 'bool', 'str'])
            e = self.ex(scope, t, depth - 1, fn)
            nm = self.name(scope)
            while nm in scope[-1]: nm = self.fresh()
            scope[-1][nm] = t
            return [('let', nm, e)]
        if x < 0.4:
            t = r.choice(['int', 'bool', 'str'])
            vs = self.vars(scope, t)
            vs = [v for v in vs if not v.startswith('i_')]
            if vs: return [('asg', V(r.choice(vs)), self.ex(scope, t, depth - 1, fn))]
            av = self.vars(scope, 'arr')
            if av and self.p('colls'): return [('asg', ('idx', V(r.choice(av)), self.ex(scope, 'int', 0, fn)), self.ex(scope, 'int', depth - 1, fn))]
        if x < 0.5: return [pr(L(self.fresh('p').encode()), self.ex(scope, r.choice(['int', 'bool', 'str']), depth - 1, fn))]
        if x < 0.6:
            sc = scope + [{}]; so = scope + [{}]
            c = self.ex(scope, 'bool', depth - 1, fn)
            return [('expr', ('if', c, self.block(sc, depth - 1, fn, loop), self.block(so, depth - 1, fn, loop) if r.random() < 0.6 else []))]
        if x < 0.75 and self.p('loops') and depth > 0:
            if r.random() < 0.5:
                i = self.fresh('i_'); sc = scope + [{i: 'int'}]
                return [('for', i, std('range', L(r.randint(-2, 2)), L(r.randint(-2, 4)), L(r.choice([1, 1, 2, -1]))), self.block(sc, depth - 1, fn, True))]
            i = self.fresh('i_'); scope[-1][i] = 'int'
            sc = scope + [{}]
            b = self.block(sc, depth - 1, fn, True)
            inc = ('asg', V(i), ('bin', '+', V(i), L(1)))
            return [('let', i, L(0)), ('while', ('bin', '<', V(i), L(r.randint(1, 3))), [inc] + b)]
        if x < 0.88 and (self.p('calls') or self.p('closures')):
            f = self.fresh('f'); k = r.randint(0, 3); ps = [self.fresh('a') for _ in range(k)]
            ts = [r.choice(['int', 'bool', 'str']) for _ in range(k)]; rt = r.choice(['int', 'int', 'bool', 'str'])
            if ps and r.random() < self.w['shadow']:
                c = [n for s in scope for n in s if not n.startswith('f')]
                if c: ps[0] = r.choice(c)
                if len(set(ps)) < len(ps): ps = [self.fresh('a') for _ in range(k)]
            sc = scope + [dict(zip(ps, ts))]
            body = self.block(sc, depth - 1, rt, False, value=rt)
            scope[-1][f] = ('fn', tuple(ts), rt)
            return [('fndef', f, ps, body)]
        if fn and r.random() < 0.3: return [('ret', self.ex(scope, fn, depth - 1, fn))]
        if loop and r.random() < 0.5: return [('expr', ('if', self.ex(scope, 'bool', depth - 1, fn), [('break',)], []))]
        if self.p('catch'):
            nm = self.fresh(); scope[-1][nm] = 'any'
            sc = scope + [{}]
            return [('let', nm, std('catch', ('fn', [], self.block(sc, depth - 1, 'int', False)))), pr(L(b'c'), std('type', V(nm)))]
        return [pr(L(self.fresh('q').encode()), self.ex(scope, 'int', depth - 1, fn))]
    def trace(self, e):
        if self.p('trace'):
            self.tk += 1
            return ('call', V('t'), [L(self.tk), e])
        return e
    def ex(self, scope, t, depth, fn):
        return self.trace(self.ex_(scope, t, depth, fn))
    def ex_(self, scope, t, depth, fn):
        r = self.r
        if self.p('panics'): t = r.choice(['int', 'bool', 'str', 'nil'])
        if t == 'nil': return L(None)
        vs = self.vars(scope, t)
        if depth <= 0 or r.random() < 0.25:
            if vs and r.random() < 0.7: return V(r.choice(vs))
            if t == 'int': return L(r.choice([0, 1, 2, 3, 5, 7, 10, -1, -3, 100]) if r.random() > self.w.get('extreme', 0) else r.choice([MAX, MIN, MAX - 1, MIN + 1, 2**62, -2**62, 2**32, 3037000500]))
            if t == 'bool': return L(r.random() < 0.5)
            if t == 'str': return L(bytes(r.choice(b'abcxyz') for _ in range(r.randint(0, 3))))
            if t == 'arr': return ('arr', [self.ex(scope, 'int', depth - 1, fn) for _ in range(r.randint(0, 3))])
        fs = [(n, ty) for s in scope for n, ty in s.items() if isinstance(ty, tuple) and ty[2] == t and n in self.visible_fns(scope)]
        if fs and self.p('calls'):
            n, ty = r.choice(fs)
            return ('call', V(n), [self.ex(scope, a, depth - 1, fn) for a in ty[1]])
        if r.random() < 0.1:
            return ('if', self.ex(scope, 'bool', depth - 1, fn), self.block(scope + [{}], depth - 2, fn, False, n=r.randint(0, 1), value=t), self.block(scope + [{}], depth - 2, fn, False, n=0, value=t))
        if self.p('closures'):
            ps = [self.fresh('a') for _ in range(r.randint(0, 2))]
            sc = scope + [{p: 'int' for p in ps}]
            return ('call', ('fn', ps, self.block(sc, depth - 2, t, False, n=r.randint(0, 1), value=t)), [self.ex(scope, 'int', depth - 2, fn) for _ in ps])
        if t == 'int':
            x = r.random()
            if x < 0.1: return ('un', '-', self.ex(scope, 'int', depth - 1, fn))
            if x < 0.2 and self.p('colls'): return std('len', self.ex(scope, r.choice(['str', 'arr']), depth - 1, fn))
            if x < 0.35 and self.p('colls'): return ('idx', self.ex(scope, 'arr', depth - 1, fn), self.ex(scope, 'int', 0, fn))
            if x < 0.4 and self.p('colls'): return ('dot', ('dict', [('a', self.ex(scope, 'int', depth - 1, fn)), ('b', self.ex(scope, 'int', depth - 1, fn))]), r.choice('ab'))
            if x < 0.45 and fn and self.p('tri'): return ('try', self.ex(scope, 'int', depth - 1, fn) if r.random() < 0.6 else std('error', L(b'e'), L(1)))
            return ('bin', r.choice(['+', '-', '*', '/', '%', '+', '-']), self.ex(scope, 'int', depth - 1, fn), self.ex(scope, 'int', depth - 1, fn))
        if t == 'bool':
            x = r.random()
            if x < 0.15: return ('un', 'not', self.ex(scope, 'bool', depth - 1, fn))
            if x < 0.5: return ('bin', r.choice(['and', 'or']), self.ex(scope, 'bool', depth - 1, fn), self.ex(scope, 'bool', depth - 1, fn))
            ty = r.choice(['int', 'int', 'str'])
            op = r.choice(['==', '!=', '<', '<=', '>', '>='])
            if r.random() < 0.2: ty, op = 'bool', r.choice(['==', '!='])
            return ('bin', op, self.ex(scope, ty, depth - 1, fn), self.ex(scope, ty, depth - 1, fn))
        if t == 'str':
            return ('bin', '++', self.ex(scope, 'str', depth - 1, fn), self.ex(scope, 'str', depth - 1, fn))
        if t == 'arr':
            return ('arr', [self.ex(scope, 'int', depth - 1, fn) for _ in range(r.randint(0, 3))])
        return L(0)
    def visible_fns(self, scope):
        seen = {}
        for s in scope:
            for n, ty in s.items(): seen[n] = ty
        return {n for n, ty in seen.items() if isinstance(ty, tuple)}

def differential(ctx, group, count, weights=None, noise=0.0, mk=None):
    """Random programs: the real binary must print what the reference interpreter prints."""
    from core import panic_kind
    jobs = []
    tries = 0
    while len(jobs) < count and tries < count * 4:
        tries += 1
        rng = random.Random((ctx.seed, group, tries).__repr__())
        prog = mk(rng) if mk else Gen(rng, **(weights or {})).program()
        e = expected(prog)
        if e is None or len(e[0]) > 20000: continue
        jobs.append((source(prog, rng, noise), e))
    def one(j):
        src, (out, k) = j
        r = ctx.run(src)
        pk = panic_kind(r.err)
        want = 127 if k else 0
        if r.timeout or r.code != want or r.out != out or (k and (not pk or pk[0] != k)):
            return (src, 'exit=%d panic=%s stdout=%r' % (want, k, out), r)
    ctx.map(group, jobs, one)
    return jobs
