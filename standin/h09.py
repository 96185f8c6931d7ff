import random, re
# statement wrappers: text with S, enters a function?, enters a loop?
W = [('if true then\nS\nend', None, None), ('if false then\nstd.println("no")\nelse\nS\nend', None, None), ('if false then\nstd.println("no")\nelseif false then\nS\nelse\nstd.println("no")\nend', None, None),
     ('if false then\nelseif false then\nelse\nS\nend', None, None), ('while false do\nS\nend', None, True), ('for it in std.range(0, 1, 1) do\nS\nend', None, True),
     ('function fN(a, b)\nS\nend', True, False), ('let fN = function()\nlet u = 1\nS\nend', True, False), ('if false then\nlet lN = 1\nS\nstd.println("no")\nend', None, None),
     ('let dN = @[ k: 1, m: function()\nS\nend ]', True, False), ('let aN = [ 1, function(p)\nS\nend, 2 ]', True, False), ('std.type(function()\nS\nend)', True, False),
     ('let vN = if true then\nS\nelse\n3\nend', None, None), ('while false do\nif true then\nbreak\nend\nS\nend', None, True), ('function fN()\nreturn function()\nS\nend\nend', True, False),
     ('while false do\nlet gN = function()\nS\nend\nend', True, False), ('function fN()\nfor q in std.iter([1]) do\nS\nend\nend', True, True)]
# expression wrappers: text with E
X = [('[1, E, 2]', 0), ('[E]', 0), ('@[ a: E ]', 0), ('@[ a: 1, b: E, c: 3 ]', 0), ('std.type(E)', 0), ('std.type(1, E)', 0), ('(E)', 0), ('-E', 0), ('not E', 0), ('1 + E', 0), ('E + 1', 0), ('2 * (E - 1)', 0), ('E and true', 0),
     ('true or E', 0), ('1 == E', 0), ('"a" ++ E', 0), ('(E)[0]', 0), ('[1][E]', 0), ('(E).k', 0), ('(E)()', 0), ('if E then\n1\nend', 0), ('if true then\n1\nelse\nE\nend', 0), ('if false then\n1\nelseif E then\n2\nend', 0),
     ('@[ a: @[ a: E ] ]', 0), ('[[E], 1]', 0), ('function()\nreturn E\nend', 1), ('function(x, y)\nlet r = E\nr\nend', 1)]
# from expression to statement
B = ['let eN = E', 'std.type(E)', 'let xN = 1\nxN = E', 'let yN = [1]\nyN[E] = 2', 'let zN = @[]\nzN.k = E', 'if false then\nE\nend', 'while E do\nbreak\nend', 'for kN in E do\nend', 'let cN = @[a: [1]]\ncN.a[E] = E2']
SF = ['let = 5', 'let qq = = 3', 'let 3 = 4', 'std.type(1,, 2)', 'std.type(1 2)', 'let qq = [1 2]', 'let qq = @[1: 2]', 'let qq = @[a 2]', 'for 3 in 4 do\nend', 'for qq of 4 do\nend', 'function fz(1)\nend', 'let qq = 1 +* 2', ')', 'let qq = )', 'let qq = std.',
      'let qq = std.3', 'elseif', 'then', 'let qq = ]', 'let qq = not', 'function fz(a b)\nend', 'let if = 3', 'let qq = end', 'while then\nend', 'let qq = 1 == == 2']
SF = [s for s in SF if s not in ('elseif', 'let qq = std.', 'let qq = not', 'let qq = end')]
LF = ['let qq = "a\\qb"', 'let qq = "\\x41"', "let qq = 'ab'", "let qq = ''", "let qq = '\\q'", 'let qq = $ 1', 'let qq = 1 ! 2', 'let qq = 1.a', 'let qq = 9223372036854775808', 'let qq = 99999999999999999999', 'let qq = 1e', 'let qq = 1ex',
      'let qq = 1.5e', 'let qq = @ 1', 'let qq = & 1', 'let qq = 1 ^ 2', 'let qq = `1`', 'let qq = ~1', 'let qq = 1 ; 2', 'let qq = 1 \\ 2', 'let qq = 1.5.5e', 'let qq = \x80', 'let qq = 1 | 2']
VF = ['zz = 1', 'zz.a = 1', 'zz[0] = 1', 'let a9 = [1]\na9[zz] = 1', 'std.type(zz)', 'let qq = 1 + zz', 'let qq = zz2', 'if zz then\nend', 'while zz do\nend', 'for qq in zz do\nend', 'let qq = [zz]', 'let qq = @[a: zz]', '{ echo $zz }', '{ echo "a${zz}b" }', '{ echo a > $zz }',
      '{ echo << $zz }', '{ X=$zz echo }', '{ $zz }', '{ echo a | cat $zz }', '{ cd $zz }', 'let qq = ${ echo a; echo $zz }', 'let qq = function()\nzz\nend', 'if false then\nlet zz = 1\nend\nzz', 'let qq = function(zz)\nend\nstd.type(zz)', 'for zz in std.iter([]) do\nend\nzz', 'zz()', 'std.type(fzz)']
DF = [('let qq = 1', 'let qq = 2'), ('let qq = 1', 'function qq()\nend'), ('function qq()\nend', 'let qq = 2'), ('function qq()\nend', 'function qq()\nend')]
PF = ['let qq = function(a, a)\nend', 'function qq(a, b, c, b)\nend', 'let qq = function(a)\nlet b = 1\nend\nfunction ww(z, y, z)\nend', 'function qq(p)\nlet p = 1\nend', 'for qq in std.iter([1]) do\nlet qq = 2\nend']
KF = ['let qq = @[a: 1, a: 2]', 'let qq = @[a: 1, b: 2, c: @[z: 1], a: 3]', 'let qq = @[a: @[b: 1, c: 2, b: 3]]', 'let qq = [@[a: 1], @[x: 1, y: 2, x: 3]]', 'let qq = @[a: function()\n@[a: 1, a: 2]\nend]', 'std.type(@[a: 1,\n b: 2, a: @[a: 1]])', 'let qq = @[a: if true then\n@[q: 1]\nend, b: 1, b: 2]']
AF = ['1 = 2', '"a" = 2', 'std.type(1) = 2', 'nil = 1', 'let q8 = 1\nif true then\n[1] = 2\nend', '@[a: 1] = 2', '1 + 1 = 2', 'if true then\n-1 = 2\nend', 'true = false', 'if true then\n(function() end)() = 1\nend', 'std.len([1]) = 3', 'if true then\n1\nend = 2', 'function()\nend = 2', '{ true } = 1']
AF_FN = ['self = 1', 'std? = 1']
EXPR_OK = ['1', '"s"', 'nil', 'std.type', '[1, 2]', '@[a: 1, b: @[a: 1, b: 2]]', '@[a: 1, b: 2].a', 'function(a, b)\na\nend', 'std.type(1)', "'x'", '1.5e3', '{ true }', '${ true }', '(1 + 2) * 3', 'if true then\n1\nelse\n2\nend']
STMT_OK = ['let qq = 1\nqq = 2', 'function qq(a, b)\nlet c = a\nend', 'let qq = [1]\nqq[0] = 2', 'let qq = @[a: @[a: 1]]\nqq.a.a = 2', 'for qq in std.iter([1]) do\nif true then\nbreak\nend\nend', 'while false do\nbreak\nend', 'let qq = 1\nif true then\nlet qq = 2\nend',
           'let qq = function(qq)\nlet ww = qq\nend', 'let qq = @[a: @[a: 1, b: 2], b: @[a: 1]]', 'let qq = function()\nreturn self\nend', 'let qq = function()\nstd.type(1)?\nend', 'let qq = 1\n{ echo $qq "${qq}" > /dev/null }', 'function qq()\nqq()\nend', 'let qq = 5\nfunction ww(qq)\nqq\nend', 'for qq in std.iter([1]) do\nlet ww = qq\nend\nlet qq = 2']
MARK = '\x02'
class G:
    def __init__(s, r): s.r = r; s.n = 0
    def nm(s, t):
        s.n += 1
        return re.sub(r'([a-z])N\b', lambda m: m.group(1) + 'n%d' % s.n, t)
    def noise(s):
        r = s.r; s.n += 1
        return r.choice(['', '', 'let n%d = 1' % s.n, 'std.println("RUN")', '# comment', 'std.type(1)', 'let n%d = function(a)\na\nend' % s.n])
    def sub(s, tmpl, hole, x):
        return tmpl.replace(hole, x, 1) if hole != 'E' else re.sub(r'\bE\b', lambda m: x, tmpl, count=1).replace('E2', '7')
    def build(s, fault):
        """fault(infn, inloop) -> (kind, text) with kind 's' or 'e'."""
        r = s.r; infn = inloop = False
        chain = [r.choice(W) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4]))]
        for _, f, l in chain:
            if f: infn, inloop = True, bool(l)
            if l: inloop = True
        xs = []; fx = infn; lx = inloop
        kind, text = fault(infn, inloop)
        if kind == 'e':
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                x = r.choice(X); xs.append(x)
            for x, _ in reversed(xs): text = s.sub(x, 'E', text)
            text = s.sub(s.nm(r.choice(B)), 'E', text)
        body = '\n'.join(q for q in (s.noise(), text, s.noise()) if q)
        for t, _, _ in reversed(chain):
            body = '\n'.join(q for q in (s.noise(), s.nm(t).replace('\nS\n', '\n' + body + '\n', 1), s.noise()) if q)
        return 'std.println("RAN")\n' + body + '\nstd.println("END")\n', infn, inloop
def mark(t, sel=None):
    # the line of the fault carries a marker comment
    ls = t.split('\n')
    return ls
def run(ctx):
    def lines(err): return {int(m) for m in re.findall(rb'\(line (\d+), column', err)}
    def bad(job):
        i, r = job
        g = G(r)
        def fault(infn, inloop):
            ks = ['syn', 'lex', 'var', 'dup', 'par', 'key', 'asg']
            if not infn: ks += ['ret', 'self', 'try']
            if not inloop: ks += ['brk', 'brk']
            if infn: ks += ['brkf']
            k = r.choice(ks)
            M = lambda t: t + ' #' + MARK   # marker on the line where the fault is
            def first(t):
                a, _, b = t.partition('\n'); return M(a) + ('\n' + b if b else '')
            def pick(t, pat):
                ls = t.split('\n'); j = max(q for q, l in enumerate(ls) if re.search(pat, l)); ls[j] = M(ls[j]); return '\n'.join(ls)
            if k == 'syn': return 's', first(r.choice(SF))
            if k == 'lex': return 's', first(r.choice(LF))
            if k == 'var':
                if r.random() < 0.4: return 'e', r.choice(['zz', 'zz.a', 'zz[0]', 'zz()', 'zz + 1', 'std.type(zz)'])
                return 's', pick(r.choice(VF), 'zz')
            if k == 'dup':
                a, b = r.choice(DF); return 's', a + '\n' + first(b)
            if k == 'par': return 's', pick(r.choice(PF), r'a, a|c, b|y, z|let p|let qq = 2')
            if k == 'key':
                if r.random() < 0.4: return 'e', r.choice(['@[a: 1, a: 2]', '@[b: @[b: 1], c: 2, b: 1]', '@[a: @[c: 1, b: 2, c: 1]]'])
                return 's', pick(r.choice(KF), r'a: 1, a|, a: 3|b: 3|x: 3|b: 2, a|b: 1, b')
            if k == 'asg':
                t = r.choice(AF + (AF_FN if infn else [])); return 's', pick(t, '(?<!q8 )=')
            if k == 'ret': return 's', 'if true then\n%s\nend' % M(r.choice(['return 1', 'return nil', 'return [1]']))
            if k == 'self': return 'e', r.choice(['self', 'self.a', '[self]', 'self()'])
            if k == 'try': return 'e', r.choice(['1?', '(1?)', 'std.type(1)?', '{ true }?'])
            if k == 'brk' and r.random() < .4: return 's', r.choice(['while if true then\n%s\nend do\nbreak\nend', 'for b7 in if true then\n%s\nend do\nbreak\nend', 'while false do\nend\nif true then\n%s\nend',
                'for b7 in std.iter([1]) do\nbreak\nend\nif true then\n%s\nend', 'while false and if true then\n%s\nend do\nend', 'let b6 = [if true then\n%s\nend]', 'while false do\nlet b6 = function()\nend\nend\nif true then\n%s\nend',
                'let b6 = [function()\nwhile false do\nend\nend, if true then\n%s\nend]']) % M('break')
            if k == 'brk': return 's', 'if true then\n%s\nend' % M('break')
            if k == 'brkf': return 's', r.choice(['let b9 = function()\n%s\nend', 'while false do\nfunction b9()\n%s\nend\nend', 'for b8 in nil do\nlet b9 = [function()\nif true then\n%s\nend\nend]\nend']) % M('break')
        # an expression fault may be wrapped in a function by X, which makes return/self/? legal: restrict
        global X
        src, infn, inloop = g.build(fault)
        hasm = MARK in src
        text = src
        if not hasm:
            # expression fault: its line is where the text stands
            m = None
            for pat in (r'\bzz\b', r'a: 1, a: 2|2, b: 1\]|b: 2, c: 1', r'\bself\b', r'\?'):
                m = re.search(pat, text)
                if m: break
            line = text[:m.start()].count('\n') + 1
            if re.search(r'\bself\b|\?', text) and 'function' in text and re.search(r'function\([xy, ]*\)\n(return|let r =) ', text):
                # could have become legal
                return None
            text = src
        else:
            line = text[:text.index(MARK)].count('\n') + 1
            text = text.replace(MARK, '')
        text = text.encode('latin1')
        r1 = ctx.run(text)
        if r1.timeout or r1.code != 2 or r1.out or line not in lines(r1.err): return (text, 'exit 2, no output, a diagnostic for line %d' % line, r1)
        if i % 8 == 0:
            r2 = ctx.run(text, opts=('--check',))
            if r2.code != 2 or r2.out: return (text, '--check: exit 2', r2)
    ctx.map('injected faults', [(i, random.Random('%s b %s' % (ctx.seed, i))) for i in range(ctx.scale(2500, 30000))], bad)
    def good(job):
        i, r = job
        g = G(r)
        def nof(infn, inloop):
            o = []
            if infn: o += [('s', 'if true then\nreturn 1\nend'), ('e', 'self'), ('e', 'std.type(1)?'), ('e', 'self.a')]
            o += [('s', r.choice(['while false do\nwhile if true then\nbreak\nend do\nend\nend', 'for q4 in std.iter([1]) do\nlet q5 = [if true then\nbreak\nend]\nend', 'while false do\nlet q4 = function()\nwhile false do\nbreak\nend\nend\nif true then\nbreak\nend\nend', 'while false do\nif true then\nwhile false do\nend\nbreak\nend\nend']))]
            if inloop: o += [('s', 'if false then\nelse\nbreak\nend'), ('s', 'if true then\nbreak\nend')]
            o += [('s', r.choice(STMT_OK))] * 2 + [('e', r.choice(EXPR_OK))] * 2
            return r.choice(o)
        src, infn, inloop = g.build(nof)
        r1 = ctx.run(src, opts=('--check',))
        if r1.timeout or r1.code != 0 or r1.out: return (src, '--check: accepted (exit 0) and nothing run', r1)
        if i % 2 == 0:
            r2 = ctx.run(src, timeout=10)
            if r2.timeout or r2.code not in (0, 127) or not r2.out.startswith(b'RAN\n') or (r2.code == 0 and b'END' not in r2.out): return (src, 'accepted and run', r2)
    ctx.map('fault-free programs', [(i, random.Random('%s g %s' % (ctx.seed, i))) for i in range(ctx.scale(1200, 15000))], good)
    # several faults are all reported; a long faulty script
    def multi(i):
        r = random.Random('%s m %s' % (ctx.seed, i))
        fs = []; src = ['std.println("RAN")']
        for k in range(r.randint(2, 8)):
            for _ in range(r.randint(0, 3)): src.append('let n%d = 1' % len(src))
            src.append(r.choice(['zz = 1', 'break', 'return 1', 'let q%d = @[a: 1, a: 2]' % k, 'let q%d = zz' % k, '1 = 2', 'let q%d = function(a, a) end' % k])); fs.append(len(src))
        t = '\n'.join(src) + '\n'
        r1 = ctx.run(t)
        if r1.code != 2 or r1.out or not set(fs) <= lines(r1.err): return (t, 'exit 2 with diagnostics for lines %s' % fs, r1)
    ctx.map('several faults', range(ctx.scale(150, 1500)), multi)
    # unclosed constructs: the end of the file is named
    U = ['if true then', 'while true do', 'for i in x do', 'function f()', 'let a = [1', 'let a = @[a: 1', 'let a = (1', 'std.println(1', 'let s = "abc', "let s = '", '{ echo', '{ echo "a', '${ echo \'a', 'let a =', 'let', 'function', 'if true then 1 else', 'if true', 'let a = 1 +', 'let a = not', 'a.', 'for', 'for i', 'for i in']
    ctx.table('unclosed', [('std.println("RAN")\n' + u + t, '', 2, r'Error') for u in U for t in ('', '\n', ' # c', '\n\n')])
    ctx.table('check option', [('std.println(1)\n', '', 0), ('std.panic(1)\n', '', 0), ('{ touch f }\nstd.import("none")\n', '', 0), ('nil()\n', '', 0), ('', '', 0), ('x\n', '', 2), ('break', '', 2), ('"', '', 2)], opts=('--check',))
