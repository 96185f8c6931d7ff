"""Writes known-findings.json (run by hand; checks only read the file)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = [
 ('H13', '{ alias a=b }\n', 'the builtin `alias` is not implemented: { alias a=b } aborts the interpreter (todo!() in src/runtime/command/exec/mod.rs) instead of running or reporting an error', 101, '', 'not yet implemented'),
 ('H02', 'let a = [1] a[0] = a std.println(a == a)\n', 'comparing a collection that contains itself overflows the native stack: let a = [1] a[0] = a, then a == a', -6, '', 'overflowed its stack'),
 ('H02', 'let a = @[] a[a] = 1\n', 'using a dict as a key of itself aborts the interpreter (already mutably borrowed): let a = @[] a[a] = 1', 101, '', 'borrowed'),
 ('H06', 'function f(n) f(n + 1) + 1 end\nf(0)\n', 'unbounded recursion that is not a tail call overflows the native stack before the stack limit of the interpreter: function f(n) f(n + 1) + 1 end f(0)', -6, '', 'overflowed its stack'),
 ('H07', 'std.import("./main.hsh")\n', 'a module that imports itself recurses until the native stack overflows', -6, '', 'overflowed its stack'),
 ('H16', 'std.println(std.json.decode(std.json.encode(2086967445.9380682)) == 2086967445.9380682)\n', 'JSON floats with 16 or 17 significant digits may come back one unit in the last place off (serde_json without float_roundtrip; repairing it needs a dependency feature, i.e. a change of Cargo.toml): 2086967445.9380682', 0, 'false\n', ''),
]
fixed = [
 ('H09', 'd470d5a', 'statements before a top-level `end`/`else` were dropped from the program and its faults not reported'),
 ('H11', 'd470d5a', 'statements before a top-level `end`/`else` were dropped from the program'),
 ('H09', 'fe90a2f', 'a repeated key after a nested dict literal was accepted'),
 ('H01', '54aa4c9', 'negating the smallest int aborted the interpreter'),
 ('H02', 'ef8334e', '0.0 and -0.0 are equal but were different dict keys'),
 ('H03', '8c19b00', 'std.substr with a negative or huge start or length aborted the interpreter'),
 ('H15', '724af0b', 'std.range near the 64-bit limits overflowed (abort) instead of ending'),
 ('H12', 'effe9a6', 'an empty quoted or substituted argument was dropped'),
 ('H07', '9d47909', 'globals of a module whose import panicked stayed on the stack'),
 ('H17', '61f9e91', '`[` or `{` in a command argument aborted the front end (todo!())'),
 ('H13', '4ad4193', 'a command killed by a signal was reported with an offset of 127 instead of 128'),
 ('H12', '558ab27', 'the amount of items was misreported when a single argument is required'),
 ('H14', '29d4d57', '<< with a text larger than the pipe capacity deadlocked'),
 ('H02', 'f1f8421', 'comparing a recursive function with itself overflowed the native stack'),
 ('H14', '636ae61', 'a capture block lost the standard error of all but the last command of a pipeline'),
 ('H03', 'b7fea36', 'std.randint with an empty range aborted the interpreter (neighbouring defect)'),
 ('H07', 'c1c27d3', 'std.export with an empty key aborted the interpreter (neighbouring defect)'),
]
out = [dict(property=p, status='known', script=s, what=w, observed_exit=c, observed_stdout=o, observed_stderr=e) for p, s, w, c, o, e in known]
out += [dict(property=p, status='fixed', commit=c, what=w, line='fixed: property=%s %s %s' % (p, c, w)) for p, c, w in fixed]
json.dump(out, open(os.path.join(V, 'known-findings.json'), 'w'), indent=1)
