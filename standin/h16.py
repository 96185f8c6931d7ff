import random, json, base64, struct
import lang
def hs(b):
    """bytes to a hush string literal (latin-1 text)"""
    o = ''
    for c in b:
        ch = chr(c)
        o += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\0': '\\0'}.get(ch, ch)
    return '"%s"' % o
def il(v): return str(v) if v >= 0 else ('(-%d)' % -v if v > -2**63 else '(-9223372036854775807 - 1)')
def runvals(ctx, group, rows, per=25):
    """rows: (expression, expected stdout bytes): every expression is printed between markers."""
    def one(ch):
        src = ''.join('std.print("<%d:")\nstd.print(%s)\nstd.println(">")\n' % (i, e) for i, (e, _) in enumerate(ch))
        want = b''.join(b'<%d:' % i + w + b'>\n' for i, (_, w) in enumerate(ch))
        x = ctx.run(src.encode('latin1'))
        if x.code != 0 or x.out != want:
            if len(ch) > 1:
                for c in ch:
                    f = one([c])
                    if f: return f
            return (src, 'stdout %r' % want, x)
    ctx.map(group, [rows[i:i + per] for i in range(0, len(rows), per)], one)
T = b'true'
def bstr(r, al=None):
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 30, 200])
    return bytes(r.choice(al) if al else r.randrange(256) for _ in range(n))
def jval(r, d=0):
    """(hush source, python value, equal check source)"""
    k = r.choice(['nil', 'bool', 'int', 'int', 'float', 'str', 'str', 'arr', 'dict'] if d < 4 else ['nil', 'int', 'str'])
    if k == 'nil': return 'nil', None
    if k == 'bool': v = r.random() < .5; return ('true' if v else 'false'), v
    if k == 'int': v = r.choice([0, 1, -1, 2**63 - 1, -2**63, r.getrandbits(r.randint(1, 63)), -r.getrandbits(r.randint(1, 62))]); return il(v), v
    if k == 'float':
        # at most 15 significant digits: see known-findings.json (H16) for the rest
        v = round(r.randint(-10**9, 10**9) / 10**r.randint(0, 6), 6); return ('(%r)' if v < 0 else '%r') % float(v), float(v)
    if k == 'str':
        s = ''.join(r.choice(['a', 'Z', '0', ' ', '"', '\\', '/', '\n', '\t', '\x01', '\x1f', '\x7f', '\u00e9', '\u20ac', '\U0001f600', '\0', "'", '{', ':', ',']) for _ in range(r.choice([0, 1, 3, 12])))
        return hs(s.encode()), s
    if k == 'arr':
        xs = [jval(r, d + 1) for _ in range(r.choice([0, 1, 2, 4]))]; return '[' + ', '.join(x[0] for x in xs) + ']', [x[1] for x in xs]
    ks = list(dict.fromkeys('k%d' % r.randint(0, 9) for _ in range(r.choice([0, 1, 2, 4])))); xs = [jval(r, d + 1) for _ in ks]
    return '@[' + ', '.join('%s: %s' % (a, x[0]) for a, x in zip(ks, xs)) + ']', {a: x[1] for a, x in zip(ks, xs)}
def run(ctx):
    R = ctx.rng; N = ctx.scale(1, 8)
    # ints
    ints = [0, 1, -1, 10, -10, 2**63 - 1, -2**63, 2**32, -2**31] + [R.choice([1, -1]) * R.getrandbits(R.randint(1, 63)) for _ in range(300 * N)]
    runvals(ctx, 'int text', [('std.int(std.to_string(%s)) == %s' % (il(i), il(i)), T) for i in ints] + [('std.int("%d")' % i, b'%d' % i) for i in ints] + [('std.to_string(%s)' % il(i), b'%d' % i) for i in ints])
    bad = ['', ' ', 'abc', '1.5', '1e5', ' 5', '5 ', '5\\n', '--1', '-', '+', '0x10', '1_000', '9223372036854775808', '-9223372036854775809', '99999999999999999999999', '5a', 'a5', '\\0', '1\\0', 'nil', '1 2', '\x80', '5\x80', '\u00b2']
    ctx.values('bad int', [('std.int("%s")' % b, 'panic:') for b in bad])
    # floats
    def flt(r):
        while True:
            v = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0] if r.random() < .4 else r.choice([1, -1]) * r.choice([r.random(), r.random() * 10**r.randint(0, 20), float(r.getrandbits(60)), r.randint(0, 1000) / 8])
            if v == v and abs(v) != float('inf'): return v
    def lit(v):
        t = '%.1f' % v if v == int(v) and abs(v) < 1e15 else repr(v)
        if 'e' in t:
            t = format(v, '.0f') + '.0' if abs(v) > 1 else format(v, '.1100f').rstrip('0')
            if t.endswith('.'): t += '0'
        return t if v >= 0 and t[0] != '-' else '(%s)' % t
    fs = [0.0, 0.1, 1.0, 1e15, 1e16, 1e22, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.123456789, -0.5, 1/3] + [flt(R) for _ in range(200 * N)]
    runvals(ctx, 'float text', [('std.float(std.to_string(%s)) == %s' % (lit(v), lit(v)), T) for v in fs] + [('std.float("%r") == %s' % (v, lit(v)), T) for v in fs])
    ctx.values('bad float', [('std.float("%s")' % b, 'panic:') for b in ['', ' ', 'abc', ' 1.5', '1.5 ', '1,5', '1.5.5', '--1', '-', '1e', '0x1p3', '\\0', '1.5\x80', '1.5f', 'e5']])
    runvals(ctx, 'int of float', [('std.int(%s)' % lit(v), b'%d' % int(v)) for v in fs if abs(v) < 2**63] + [('std.int(%s)' % lit(v), b'%d' % int(v)) for v in [0.5, 0.999999, 1.5, 2.5, -0.5, -0.999999, -1.5, -2.5, 1e15, 9007199254740993.0, 9.2e18, -9.2e18, 4.999999999999999]])
    runvals(ctx, 'float of int', [('std.float(%s) == %s' % (il(i), lit(float(i))), T) for i in ints])
    # hex, base64
    bs = [b'', b'a', b'\0', b'\xff', bytes(range(256))] + [bstr(R) for _ in range(250 * N)]
    runvals(ctx, 'hex', [('std.hex.encode(%s)' % hs(b), b.hex().encode()) for b in bs] + [('std.hex.decode("%s")' % b.hex(), b) for b in bs] + [('std.hex.decode("%s")' % b.hex().upper(), b) for b in bs[:40]] + [('std.hex.decode(std.hex.encode(%s)) == %s' % (hs(b), hs(b)), T) for b in bs])
    runvals(ctx, 'base64', [('std.base64.encode(%s)' % hs(b), base64.b64encode(b)) for b in bs] + [('std.base64.decode("%s")' % base64.b64encode(b).decode(), b) for b in bs] + [('std.base64.decode(std.base64.encode(%s)) == %s' % (hs(b), hs(b)), T) for b in bs])
    runvals(ctx, 'bad hex', [('std.type(std.hex.decode(%s))' % hs(b), b'error') for b in [b'a', b'abc', b'zz', b'0g', b' 00', b'00 ', b'0x00', b'a\0', b'\xff\xff', b'00\n', b'--', b'G0', b'/0', b':0', b'@0', b'`0']])
    runvals(ctx, 'bad base64', [('std.type(std.base64.decode(%s))' % hs(b), b'error') for b in [b'a', b'YQ==\n', b'Y Q==', b'!!!!', b'=', b'====', b'YWJj=', b'\xff\xff\xff\xff', b'YQ==YQ==', b'Y', b'YWJjZ', b'YR==' ]])
    # json
    rows = []
    for i in range(400 * N):
        s, v = jval(R)
        rows.append(('std.json.decode(std.json.encode(%s)) == %s' % (s, s), T))
        for ind in (None, 1): rows.append(('std.json.decode(%s) == %s' % (hs(json.dumps(v, indent=ind, ensure_ascii=R.random() < .5).encode()), s), T))
    runvals(ctx, 'json', rows)
    def enc(i):
        r = random.Random('%s e %s' % (ctx.seed, i)); vs = [jval(r) for _ in range(15)]
        src = ''.join('std.println(std.json.encode(%s) ++ "\\0")\n' % s for s, _ in vs)
        x = ctx.run(src.encode('latin1'))
        try: got = [json.loads(t) for t in x.out.decode().split('\0\n')[:-1]]
        except ValueError as e: return (src, 'valid JSON text', '%s %s' % (e, x))
        same = lambda a, b: type(a) == type(b) and (a == b if not isinstance(a, (list, dict)) else len(a) == len(b) and (all(same(p, q) for p, q in zip(a, b)) if isinstance(a, list) else all(k in b and same(a[k], b[k]) for k in a)))
        if x.code != 0 or not same(got, [v for _, v in vs]): return (src, 'the JSON texts of %r' % [v for _, v in vs], x)
    ctx.map('json text', range(40 * N), enc)
    bad = ['', ' ', '[1,', '[1', '{', '{"a"}', '{"a":}', '{a:1}', "'a'", '"a', 'nul', 'truee', '1 2', '[1,]', '{"a":1,}', '01', '1.', '.5', '+1', '--1', '"\\x"', '"\\u12"', '"\n"', '[1 2]', '}', ']', ',', '\x80', '"\x80"', '[' * 200, '9' * 400 + 'x', '1e999', '18446744073709551615', '9223372036854775808', 'NaN', 'inf', '{"a":1 "b":2}', '{1:2}', '[nil]', '//x\n1', '{"a":1}x', '{nil:1}']
    runvals(ctx, 'bad json', [('std.type(std.json.decode(%s))' % hs(b.encode('latin1')), b'error') for b in bad])
    ctx.values('json unencodable', [('std.json.encode(%s)' % e, 'panic:') for e in ['std.print', '[std.print]', '@[a: std.print]', 'std.error("a", nil)', '[1, [std.error("a", 1)]]']] + [('(function() let d = @[] d[1] = 2 std.json.encode(d) end)()', 'panic:'), ('(function() let d = @[] d[nil] = 2 std.json.encode([d]) end)()', 'panic:')])
    # split, replace, trim
    rows = []
    for i in range(400 * N):
        al = R.choice([b'ab', b'ab,', b'\xff\x80a', b'a*.%', b'\xc3\xa9\xa8'])
        s = bytes(R.choice(al) for _ in range(R.choice([0, 1, 2, 5, 12, 40]))); p = bytes(R.choice(al) for _ in range(R.choice([1, 1, 2, 3]))); q = bytes(R.choice(al) for _ in range(R.choice([0, 1, 2, 4])))
        if R.random() < .1 and s: p = s
        ps = s.split(p)
        rows.append(('std.split(%s, %s) == [%s]' % (hs(s), hs(p), ', '.join(hs(x) for x in ps)), T))
        rows.append(('std.replace(%s, %s, %s)' % (hs(s), hs(p), hs(q)), s.replace(p, q)))
    ws = b' \t\n\r\x0b\x0c'
    for i in range(300 * N):
        core = bytes(R.choice(b'ab \t\n\0') for _ in range(R.choice([0, 1, 2, 6])))
        if R.random() < .3: core = R.choice([b'\xff', b'\xc3\xa9', b'\x80', b'\0', b'x']) + core + R.choice([b'\xff', b'\xc3\xa9', b'\x9f', b'\0', b'x'])
        s = bytes(R.choice(ws) for _ in range(R.choice([0, 1, 3]))) + core + bytes(R.choice(ws) for _ in range(R.choice([0, 1, 3])))
        rows.append(('std.trim(%s)' % hs(s), s.strip(ws)))
    runvals(ctx, 'split, replace, trim', rows)
    ctx.values('wrong types', [('std.%s' % e, 'panic:') for e in ['split("a", 1)', 'split(1, "a")', 'split("a")', 'replace("a", "b", 1)', 'replace("a", 1, "b")', 'replace(1, "a", "b")', 'trim(1)', 'trim()', 'hex.encode(1)', 'hex.decode(nil)', 'base64.encode([])', 'base64.decode(1)', 'json.decode(1)', 'int(nil)', 'int([])', 'int(true)', 'float(nil)', 'float("1", 2)', 'int()']])
