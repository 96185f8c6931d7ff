import random, re
import lang
def fval(t): return lambda g, v=float(t): float(g) == v and (b'.' in g or b'e' in g)
from lang import showf, Flt
KW = ['let', 'if', 'then', 'else', 'elseif', 'end', 'for', 'in', 'do', 'while', 'function', 'return', 'break', 'self', 'nil', 'true', 'false', 'not', 'and', 'or']
ESC = {'"': '"', "'": "'", 'n': '\n', 't': '\t', '0': '\0', '\\': '\\'}
def run(ctx):
    R = ctx.rng
    # ints: every magnitude
    ints = {0, 1, 9, 10, 2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**63 - 1, 2**63 - 2, 10**18, 9 * 10**18}
    for b in range(64): ints |= {2**b - 1, min(2**b, 2**63 - 1), 10**min(b, 18)}
    for _ in range(ctx.scale(400, 4000)): ints.add(R.getrandbits(R.randint(1, 63)))
    ctx.values('ints', [(str(i), str(i)) for i in sorted(ints)] + [('0' * R.randint(1, 25) + str(i), str(i)) for i in R.sample(sorted(ints), 60)] + [('-%d' % i, str(-i)) for i in R.sample(sorted(ints), 60) if i] + [('%d + 0' % i, str(i)) for i in R.sample(sorted(ints), 40)], per=60)
    bad = [2**63, 2**63 + 1, 10**19, 2**64, 2**64 - 1, 2**64 + 5, 10**30, 10**100]
    ctx.table('out of range', [('std.println("RAN")\nlet x = %d\n' % i, '', 2, r'line 2,') for i in bad] + [('std.println("RAN")\nlet x = -%d\n' % (2**63), '', 2, r'line 2,')])
    # floats
    fs = []
    for _ in range(ctx.scale(500, 5000)):
        a = ''.join(R.choice('0123456789') for _ in range(R.randint(1, R.choice([3, 18, 30])))); f = ''.join(R.choice('0123456789') for _ in range(R.randint(1, R.choice([3, 18, 30]))))
        e = R.choice(['', '', 'e', 'E']); x = str(R.choice([0, 1, 5, 16, 22, 100, 290, 305, 308]) ) if e else ''
        t = R.choice([a + '.' + f + e + x, a + (e or 'e') + (x or '2'), a + '.' + f])
        if float(t) == float('inf'): continue
        fs.append((t, fval(t)))
    fs += [(t, fval(t)) for t in ['0.1', '0.2', '0.3', '1.0', '2.5', '123.456', '4.35', '0.000001', '9007199254740993.0', '9007199254740992.0', '5e0', '5E3', '1e15', '1e16', '1e17', '1.7976931348623157e308', '0.0', '00.5', '1e00', '179769313486231570' + '0' * 290 + '.5', '0.' + '0' * 320 + '5', '0.' + '0' * 307 + '22250738585072014']]
    ctx.values('floats', fs, per=60)
    ctx.values('float kinds', [('std.type(%s)' % t, k) for t, k in [('1', 'int'), ('1.0', 'float'), ('1e0', 'float'), ('10', 'int'), ('"1"', 'string'), ("'1'", 'char'), ('1.5e3', 'float'), ('nil', 'nil'), ('true', 'bool')]])
    mal = ['1.', '1e', '1.5e', '1ex', '1.x', '1e+5', '1e-5', '1..2', '1.5.', '1e5.', "''", "'ab'", "'", "'\\'", "'\\q'", "'\\", '"abc', '"\\"', '"\\q"', '"\\x41"', '"a\\', '"\\r"', "'\\r'", '"\\1"', '"\\u00e9"', '"\\ "', '"\\\n"', "'\\a'"]
    ctx.table('malformed', [('std.println("RAN")\nlet x = %s\n' % m, '', 2, r'Error') for m in mal])
    ctx.table('malformed', [('std.println("RAN")\nlet x = %s%s%s\n' % (q, '\\' + chr(c), q), '', 2, r'Error') for q in '"\'' for c in range(1, 127) if chr(c) not in ESC and c != 10])
    # strings and bytes: arbitrary bytes raw, all escapes
    def enc(b, r):
        o = []
        for c in b:
            ch = chr(c); k = [x for x, y in ESC.items() if y == ch]
            if ch in '"\\' or (k and r.random() < 0.6): o.append('\\' + k[0])
            else: o.append(ch)
        return ''.join(o)
    def strs(i):
        r = random.Random('%s s %s' % (ctx.seed, i)); src = ''; out = b''
        for j in range(12):
            n = r.choice([0, 1, 2, 5, 40, 300])
            b = bytes(r.choice([r.randrange(256), r.randrange(32, 127), r.choice(b'\\"\'\n\t\0#$%{}\r')]) for _ in range(n))
            src += 'std.print("%s")%sstd.println("|", std.len("%s"))\n' % (enc(b, r), r.choice([' ', '\n', '# "\n']), enc(b, r)); out += b + b'|\t%d\n' % n
        return ctx.expect('strings', src.encode('latin1'), out)
    ctx.map('strings', range(ctx.scale(80, 800)), strs)
    def all_bytes(q):
        src = 'let all = "%s"\n' % enc(bytes(range(256)), random.Random(1)); out = b'256\n'
        src += 'std.println(std.len(all))\n'
        for c in range(256):
            ch = chr(c)
            for form in ([] if ch in "'\\" else [ch]) + ['\\' + k for k, y in ESC.items() if y == ch]:
                src += "std.print('%s')\nstd.println(all[%d] == '%s', \"%s\"[0] == '%s')\n" % (form, c, form, enc(bytes([c]), random.Random(c)), form); out += bytes([c]) + b'true\ttrue\n'
        return ctx.expect('bytes', src.encode('latin1'), out)
    ctx.map('bytes', [0], all_bytes)
    # identifiers and keywords: longest match
    names = set()
    for k in KW:
        for suf in ('s', '_', '1', 'x1', k, 'end', '0', 'X', 'if'): names.add(k + suf); names.add('_' + k); names.add('x' + k); names.add(k.capitalize()); names.add(k[:-1] + '_' if len(k) > 1 else k + '_'); names.add(k.upper())
        for n in range(1, len(k)): names.add(k[:n])
    names |= {'_', '__', 'a', 'Z', 'a1', 'a_b', '_1', 'letfunction', 'elseifx', 'elsei', 'nottrue', 'andor', 'orand', 'truefalse', 'e5', 'E', 'x' * 300}
    names = sorted(n for n in names if n not in KW and n != 'std')
    def idents(chunk):
        src = ''.join('let %s = %d\n' % (n, i) for i, n in enumerate(chunk)) + 'std.println(%s)\n' % ', '.join(chunk) + ''.join('%s = %s + 1\n' % (n, n) for n in chunk) + 'std.println(%s)\n' % ', '.join(chunk)
        src += 'let d = @[ %s ]\nstd.println(%s)\n' % (', '.join('%s: %d' % (n, i) for i, n in enumerate(chunk)), ', '.join('d.' + n for n in chunk))
        l = '\t'.join(str(i) for i in range(len(chunk))) + '\n'
        return ctx.expect('identifiers', src, l + '\t'.join(str(i + 1) for i in range(len(chunk))) + '\n' + l)
    names = [n for n in names if n != 'd']
    ctx.map('identifiers', [names[i:i + 30] for i in range(0, len(names), 30)], idents)
    ctx.table('keywords', [('std.println("RAN")\nlet %s = 1\n' % k, '', 2, 'line 2,') for k in KW])
    # adjacent tokens
    ctx.values('adjacent', [('1+2', '3'), ('1-2', '-1'), ('1--2', '3'), ('2*3', '6'), ('"a"++"b"', 'ab'), ('1<2', 'true'), ('1<=2', 'true'), ('1>=2', 'false'), ('1>2', 'false'), ('1==2', 'false'), ('1!=2', 'true'), ('1==-1', 'false'), ('1<-1', 'false'), ('[1,2][0]', '1'), ('@[a:1].a', '1'),
        ('not(true)', 'false'), ('true and(false)', 'false'), ('true==not false', 'true'), ('1.5+1.5', '3.0'), ('1e1+1.0', '11.0'), ('7%4', '3'), ('8/2', '4'), ("'a'=='a'", 'true'), ('"a"=="a"', 'true'), ('if(true)then 1 else(2)end', '1'), ('if true then"x"end', 'x'), ('(1)==1', 'true'), ('[1][0]+[2][0]', '3'),
        ('std.len("#")', '1'), ('std.len("a#b")', '3'), ("'#'=='#'", 'true'), ('1#c\n+#c\n2', '3'), ('"a"#"\n++"b"', 'ab'), ('1\n+\n2', '3'), ('1\r\n+\t2', '3'), ('1\x0c+2', '3'), ('12#3', '12') if False else ('12', '12'), ('1 2' if False else '1', '1'), ('[1#,2\n]', '[ 1 ]'), ('"1\n2"', '1\n2'), ('"#\nx"', '#\nx')])
    # comments and white space do not change meaning; positions of the diagnostics
    def layout(i):
        r = random.Random('%s l %s' % (ctx.seed, i))
        prog = lang.Gen(r, depth=3, stmts=4, trace=0.1).program()
        e = lang.expected(prog)
        if e is None: return None
        src = lang.relayout(lang.source(prog, r), r, r.choice([0, 0.3, 0.9]))
        x = ctx.run(src.encode('latin1'))
        if x.code != (127 if e[1] else 0) or x.out != e[0]: return (src, 'stdout=%r panic=%s' % e, x)
    ctx.map('layout', range(ctx.scale(250, 3000)), layout)
    def where(i):
        r = random.Random('%s w %s' % (ctx.seed, i))
        toks = []
        for j in range(r.randint(0, 12)): toks += r.choice([['let', 'a%d' % j, '=', '1'], ['std', '.', 'type', '(', '1', ')'], ['let', 'b%d' % j, '=', '"x\ny\n"'], ['let', 'c%d' % j, '=', "'\n'"], ['let', 'd%d' % j, '=', '"\\n"'], ['if', 'true', 'then', 'end']])
        bad = r.choice([['let', 'q', '=', '\x01zz'], ['let', 'q', '=', '1', '+', '\x01zz', '+', '2'], ['let', '\x01a', '=', '1'] if False else ['\x01break'], ['let', 'q', '=', '@[', 'k', ':', '1', ',', '\x01k', ':', '2', ']'], ['let', 'q', '=', '1', '+', '\x01)'], ['let', 'q', '=', '\x0199999999999999999999'], ['let', 'q', '=', '\x01', '^1'][:0] or ['let', 'q', '=', '\x01self'], ['let', 'q', '=', '[', "\x01''", ']'], ['let', 'q', '=', '"a\nb\x01\\q"']])
        at = len(toks); toks += bad
        for j in range(r.randint(0, 8)): toks += ['let', 'z%d' % j, '=', '1']
        src = ''
        for t in toks: src += t + ''.join(r.choice([' ', '\n', '\n\n', ' # c\n', '\r\n', '\t ']) for _ in range(r.choice([1, 1, 2])))
        line = src[:src.index('\x01')].count('\n') + 1
        src = src.replace('\x01', '')
        x = ctx.run(src)
        ls = {int(m) for m in re.findall(rb'\(line (\d+), column', x.err)}
        if x.code != 2 or x.out or line not in ls or (bad[-1] != '\x01)' and '99999' not in src and "''" not in src and '\\q' not in src and ls != {line}): return (src, 'diagnostic on line %d' % line, x)
    ctx.map('diagnostic lines', range(ctx.scale(500, 6000)), where)
    def pline(i):
        r = random.Random('%s p %s' % (ctx.seed, i))
        toks = ['let', 'q', '=', '1', '\x01/', '0'] if i % 2 else ['let', 'q', '=', 'std', '.', 'len', '\x01(', '1', ')']
        src = ''
        for t in ['let', 'a', '=', '"\n\n"', *toks]: src += t + ''.join(r.choice([' ', '\n', '# x\n', '\n\n']) for _ in range(r.choice([1, 1, 2])))
        line = src[:src.index('\x01')].count('\n') + 1; src = src.replace('\x01', '')
        return ctx.expect('panic lines', src, '', 127, err_re=r'\(line %d,' % line)
    ctx.map('panic lines', range(ctx.scale(60, 600)), pline)
