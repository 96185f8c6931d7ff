import random, re
FLAT = '''let out = []
function flat(v)
	if std.type(v) == "array" then
		for x in std.iter(v) do flat(x) end
	elseif std.type(v) == "error" then
		flat(v.context)
	elseif std.type(v) == "dict" then
		if std.contains(v, "status") then std.push(out, v.status) end
		if std.contains(v, "error") then flat(v.error) end
	end
end
'''
KINDS = {'sync': ('let r = { %s }\n', '', 'nil'), 'capture': ('let r = ${ %s }\n', '', 'dict'), 'async': ('let p = &{ %s }\nlet r = p.join()\n', '', 'nil')}
def run(ctx):
    def blocks(i):
        r = random.Random('%s b %s' % (ctx.seed, i))
        pipes = []; tag = 0
        pfail = r.choice([0.1, 0.3, 0.6])
        for _ in range(r.randint(1, 5)):
            p = []
            for _ in range(r.choice([1, 1, 1, 2, 3, 4])):
                tag += 1
                st = r.choice([1, 2, 3, 42, 77, 126, 127, 128, 200, 255, 'KILL', 'TERM', 'USR1', 'HUP']) if r.random() < pfail else 0
                p.append((tag, st, r.random() < 0.5, r.choice([0, 0, 0, 0, 0.03])))
            pipes.append(p)
        SIG = {'KILL': 137, 'TERM': 143, 'USR1': 138, 'HUP': 129}
        def cmd(t, st, mark, sl):
            body = ('sleep %s; ' % sl if sl else '') + 'echo %d >> log; ' % t + ('kill -%s $$' % st if isinstance(st, str) else 'exit %d' % st)
            return "sh -c '%s'%s" % (body, r.choice([' ?', '?']) if mark else '')
        text = ''.join(r.choice(['; ', ';\n\t', ' ;']) if k else '' for k in [0]) + ''
        text = r.choice(['; ', ';\n\t', ' ; # c\n']).join(' | '.join(cmd(*c) for c in p) for p in pipes) + r.choice(['', ';'])
        want = []; ran = []
        for p in pipes:
            ran.append({c[0] for c in p})
            want += [SIG.get(c[1], c[1]) for c in p if c[1] != 0]
            if any(c[1] != 0 and not c[2] for c in p): break
        kind = r.choice(['sync', 'sync', 'capture', 'async'])
        src = FLAT + KINDS[kind][0] % text + 'std.println(std.type(r))\nflat(r)\nstd.println(out)\n'
        x = ctx.run(src, keep=True)
        ls = [int(q) for q in x.files.get('log', b'').split()]
        k = 0; ok = len(ls) == sum(len(s) for s in ran)
        for s in ran: ok = ok and set(ls[k:k + len(s)]) == s; k += len(s)
        exp = '%s\n[%s ]\n' % ('error' if want else KINDS[kind][2], ' ' + ', '.join(map(str, want)) if want else '')
        if x.timeout or x.code != 0 or x.out != exp.encode() or not ok: return (src, 'stdout %r, commands run %r' % (exp, ran), '%s\nlog: %s' % (x, ls))
    ctx.map('blocks', range(ctx.scale(500, 6000)), blocks)
    # every exit status and every signal that ends a process
    def status(s):
        t = "sh -c 'exit %d'" % s if s >= 0 else "sh -c 'ulimit -c 0; kill -%d $$'" % -s
        w = s if s >= 0 else 128 - s
        src = FLAT + 'let r = { %s }\nflat(r)\nstd.println(std.type(r), out)\n' % t
        return ctx.expect('statuses', src, 'error\t[ %d ]\n' % w if w else 'nil\t[ ]\n')
    ctx.map('statuses', list(range(256)) + [-1, -2, -3, -6, -8, -9, -11, -13, -14, -15, -10, -12], status)
    ctx.table('values', [
      ('let r = { true; true | true } std.println(r)', 'nil\n'), ('let r = { false } std.println(std.type(r), r.context.status, r.description)', 'error\t1\tcommand returned non-zero\n'),
      ('let r = { false ?; true } std.println(std.type(r), r.context.status)', 'error\t1\n'), ('let r = { true | false | sh -c "exit 4" } std.println(std.len(r.context), r.context[0].context.status, r.context[1].context.status)', '2\t1\t4\n'),
      ('let r = { false ?; sh -c "exit 5" ?; true } std.println(std.len(r.context), r.context[0].context.status, r.context[1].context.status)', '2\t1\t5\n'),
      ('let r = { no-such-program-here } std.println(std.type(r), r.context.status)', 'error\t127\n'), ('let r = { cat < no-such-file } std.println(std.type(r), r.context.status)', 'error\t127\n'),
      ('let r = { cd no-such-dir } std.println(std.type(r))', 'error\n'), ('function f() { true; false; true }? 7 end let e = f() std.println(std.type(e))', 'error\n'), ('function f() { true }? 7 end std.println(f())', '7\n'),
      ('let r = ${ echo hi; false; echo no } std.println(std.type(r), r.context.stdout, r.context.error.status)', 'error\thi\n\t1\n'), ('let p = &{ sh -c "exit 9" } let r = p.join() std.println(r.context.status)', '9\n'),
      ('std.println({ true }, std.type({ false }))', 'nil\terror\n'), ('let r = { sh -c "exit 3" | true } std.println(r.context.status)', '3\n'), ('let r = { sh -c "exit 3" ? | true; echo on } std.println(r.context.status)', 'on\n3\n'), ('let r = { true | sh -c "exit 3" ?; echo on } std.println(r.context.status)', 'on\n3\n'),
      ('let r = { sh -c "exit 3" ? | sh -c "exit 4"; echo on } std.println(std.len(r.context))', '2\n'), ('let r = { sh -c "exit 3" | sh -c "exit 4" ?; echo on } std.println(std.len(r.context))', '2\n'), ('let r = { sh -c "exit 3" ? | sh -c "exit 4" ?; echo on } std.println(std.len(r.context))', 'on\n2\n')])
    # the block goes on only after every command of the pipeline has ended
    ctx.table('waiting', [
      ("{ sh -c 'sleep 0.3; echo a >> log' | true; cat log }", 'a\n'), ("{ true | sh -c 'sleep 0.3; echo a >> log'; cat log }", 'a\n'), ("{ true | sh -c 'exec >&- <&-; sleep 0.3; echo a >> log' | true; cat log }", 'a\n'), ("{ sh -c 'exec >&-; sleep 0.3; echo a >> log' | cat }\n{ cat log }", 'a\n'),
      ("let r = ${ sh -c 'exec >&- 2>&-; sleep 0.3; echo a >> log' }\n{ cat log }", 'a\n'), ("let p = &{ sh -c 'sleep 0.3; echo a >> log' }\np.join()\n{ cat log }", 'a\n'), ("{ sh -c 'exec >&-; sleep 0.2; echo a >> log; exit 3' ? | cat; cat log }", 'a\n')])
