#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
R='src/runtime/mod.rs'; S='src/semantic/mod.rs'; SC='src/semantic/scope.rs'; P='src/syntax/parser/mod.rs'
E='src/runtime/command/exec/mod.rs'; C='src/runtime/command/mod.rs'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    props.append(d)
p('H01','Arithmetic is exact or panics',
 'For every pair of 64-bit ints, + - * and unary minus yield the exact mathematical result and / and % the quotient truncated towards zero and the remainder with the sign of the dividend, or else raise a Hush panic (result out of range, zero divisor); nothing ever wraps, saturates or aborts the interpreter. Float operands give the IEEE-754 double result of the operator. Operands of two different types, or of a non-numeric type, raise a type panic and are never converted.',
 ['inputs'],'every pair of operand values of every type, every arithmetic operator',
 'Tests evaluate a few small constants; the boundary pairs (minimum int, -1, products near the limit) form a 128-bit input space.',
 [R,'src/runtime/value/float.rs','src/runtime/value/ops.rs'],
 [('checked integer operations, type dispatch on both operands',R+': binary_op, arithmetic_op, unary_op'),('float operators','src/runtime/value/float.rs: op_impl!')],
 ['value printed by a script','panic message and exit status 127'])
p('H02','Equality, ordering, sorting and dict keys agree',
 '== and != compare any two values structurally, values of different types are never equal, and a function equals itself (NaN alone equals nothing, itself included). <, <=, >, >= accept two ints, two floats, two bytes or two strings, order them by value (strings bytewise) consistently with ==, and std.sort returns the same elements in that order. A dict lookup, std.contains or dict assignment treats two keys as the same key exactly when they are equal.',
 ['inputs','histories'],'every pair and triple of non-NaN values, every history of dict insertions',
 'Consistency relates all pairs of values (0.0 and -0.0, equal floats and ints, nested arrays, prefixes of strings); tests compare a handful of pairs.',
 ['src/runtime/value/mod.rs','src/runtime/value/float.rs','src/runtime/value/array.rs','src/runtime/value/dict.rs','src/runtime/value/string.rs','src/runtime/value/function.rs','src/runtime/lib/sort.rs','src/runtime/lib/contains.rs',R],
 [('derived and hand-written Eq, Ord, Hash agree','src/runtime/value/*.rs'),('dict keyed by value hash','src/runtime/value/dict.rs'),('comparison operators',R+': ord_op, binary_op')])
p('H03','Indexing and collection operations are bounds-checked and precise',
 'Reading or assigning an array element, reading a string byte, a dict key or a field of an error, popping, and taking a substring either address exactly the element asked for or raise a panic (std.substr gives nil), for every index value including negative and huge ones; the interpreter never aborts. A write changes the addressed element and nothing else and is seen through every reference to the same array or dict, std.push adds one element at the end, std.pop removes and returns the last one, std.len counts the elements. Strings and error fields cannot be modified.',
 ['inputs','histories'],'every index value, every length, every history of reads and writes',
 'The failures sit at particular index values (equal to the length, negative, above the address range) and in aliasing histories; tests use a few small indexes.',
 [R,'src/runtime/value/array.rs','src/runtime/value/string.rs','src/runtime/value/dict.rs','src/runtime/value/error.rs','src/runtime/lib/substr.rs','src/runtime/lib/push.rs','src/runtime/lib/pop.rs','src/runtime/lib/length.rs'],
 [('checked index conversion','src/runtime/value/array.rs: index, set; src/runtime/value/string.rs: index'),('access and assignment dispatch',R+': Expr::Access, Statement::Assign'),('substring range','src/runtime/lib/substr.rs')])
p('H04','Sub-expressions are evaluated once, in order, and only when due',
 'Operands, call arguments, array and dict items, and the object and field of an access are evaluated exactly once, left to right; in an assignment the right-hand side is evaluated first, then the object, then the field. `and` and `or` require bools and evaluate their right operand only when the left one does not decide the result. When a sub-expression panics, returns through `?` or breaks out of the loop, no later sub-expression is evaluated and the operation itself has no effect.',
 ['programs'],'every expression form, every combination of outcomes (value of each type, panic, return, break) of its sub-expressions, at every nesting depth',
 'The outcome combinations of sub-expressions multiply per expression form and nest without limit; tests cover the all-regular combination.',
 [R],[('flow propagation in every expression arm',R+': eval_tail_expr, eval_literal, unary_op, binary_op, eval_tail_statement')],
 ['order of side effects'])
p('H05','Blocks, conditionals, loops, break and return transfer control as written',
 'The statements of a block run in order, once each, until one breaks, returns or panics, and the block has the value of its last statement (nil for an empty block, a loop or an assignment). `if` runs exactly the branch selected by its bool condition, `while` tests its bool condition before each iteration and `for` takes one item per iteration; any other condition type raises a panic. `break` leaves only the innermost loop, `return` leaves only the innermost function and delivers its value, and `?` returns exactly when its operand is an error.',
 ['programs'],'every program, every nesting of blocks, loops and functions, every outcome of each statement',
 'The nesting of loops, functions and early exits is unbounded; tests run a few fixed shapes.',
 [R,'src/runtime/flow.rs'],[('flow values returned by every statement',R+': eval_tail_block, eval_tail_statement, eval_tail_expr If arm, call'),])
p('H06','Calls bind arguments exactly and leave the caller untouched',
 'A call with the declared number of arguments binds each argument to its parameter in order, binds self to the object the function was accessed on (nil otherwise), starts all other locals of the callee as nil, and yields the value of the callee; any other number of arguments raises a panic before the body runs. After a call ends in any way, including a tail call or a caught panic, the locals of the caller and its pending arguments are as they were, except through variables and collections the callee shares. Locals beyond the stack limit of the interpreter raise a stack overflow panic, which can be caught like any other, and tail calls behave like ordinary calls.',
 ['programs','histories'],'every call graph, arity, argument count, self binding and call history',
 'Frame corruption needs particular combinations of tail call, arity, captured slots and nesting; tests call a few functions.',
 [R,'src/runtime/mem.rs','src/runtime/value/function.rs','src/runtime/lib/bind.rs'],
 [('frame allocation and release',R+': call; src/runtime/mem.rs: extend, shrink'),('argument vector discipline',R+': Expr::Call'),('self slot','src/semantic/scope.rs: resolve_or_insert_self')],
 state=[('value stack','slots of all active frames','src/runtime/mem.rs: Stack'),('argument vector','evaluated arguments of pending calls',R+': Runtime.arguments')])
p('H07','A caught panic or failed import leaves the program able to continue',
 'std.catch returns the value of the function it calls, or an error describing the panic that the function raised, and afterwards every variable, pending argument and collection has the value the completed operations gave it. std.import runs a module once per resolved path and later imports of the same path give the same value, it isolates the variables of the module from the importer, and a module that cannot be read or analysed or that panics raises a panic in the importer that can be caught, after which execution continues normally and a later import tries again.',
 ['programs','fault_sequences','histories'],'every point at which a panic can arise inside nested calls, arguments, imports and native callbacks, and every sequence of catches and imports',
 'The state left by a panic depends on the exact point where it is raised; tests catch two or three panics at top level.',
 ['src/runtime/lib/catch.rs','src/runtime/lib/import.rs',R,'src/runtime/mem.rs'],
 [('stack and argument clean-up on error paths',R+': call, eval'),('module cache','src/runtime/lib/import.rs: import')])
p('H08','Variables are lexically scoped and closures share them',
 'An identifier always denotes the innermost declaration that is visible at that point of the program text, so shadowing in a block, loop, parameter list or function never changes the outer variable, and a name that is out of scope is rejected. A function refers to the enclosing variables themselves, at any nesting depth: an assignment made by the function, by another closure or by the enclosing code is seen by all of them, even after the enclosing function has ended. Each call of a function has its own variables, distinct from those of every other call.',
 ['programs','histories'],'every nesting of scopes and functions, every combination of shadowing and capture, every interleaving of closure calls',
 'Slot resolution errors appear only for particular combinations of shadowing, capture depth and declaration order; the tests contain one small closure script.',
 [SC,S,'src/runtime/mem.rs',R,'src/runtime/value/function.rs'],
 [('scope resolution and capture installation',SC+': resolve, capture'),('promotion of captured slots to shared cells','src/runtime/mem.rs: capture, place')])
p('H09','Programs with static errors are rejected before anything runs',
 'A script containing a syntax error, an undeclared variable, a variable or parameter declared twice in one scope, a repeated key in one dict literal, an assignment to something not assignable, break outside a loop, or return, self or `?` outside a function is rejected with at least one diagnostic naming its line (or the end of the script) and exit status 2, and no part of it is executed, wherever in the program the fault is nested. A script with none of those faults is accepted, and with the check option it is only checked, never run.',
 ['programs'],'every position in every program at which a fault can be nested',
 'Context flags must be right for every nesting of functions, loops, dicts and command blocks; tests contain one example of each fault at top level.',
 [S,SC,'src/syntax/parser/mod.rs','src/main.rs'],[('context flags and scope stack',S+': Analyzer'),('error recovery keeps the errors','src/syntax/parser/mod.rs, src/syntax/parser/sync.rs'),('exit status','src/main.rs: run')],
 ['exit status','stderr diagnostics','absence of side effects'])
p('H10','Literals denote the values they spell',
 'Every int literal in the 64-bit range, float literal, byte literal and string literal, with all documented escape sequences and arbitrary other bytes, evaluates to exactly the number or bytes it spells, and an int literal beyond the 64-bit range or a malformed literal is a static error rather than another value. Comments and white space never change the meaning of the surrounding tokens, and identifiers and keywords are recognised by their longest match. Diagnostics name the line on which the offending token starts.',
 ['inputs'],'every byte sequence of a literal, followed and preceded by every other token',
 'Literal contents range over all byte strings; tests sample a few dozen.',
 ['src/syntax/lexer/automata/number.rs','src/syntax/lexer/automata/string.rs','src/syntax/lexer/automata/word.rs','src/syntax/lexer/automata/symbol.rs','src/syntax/lexer/automata/comment.rs','src/syntax/lexer/cursor.rs'],
 [('lexer automata','src/syntax/lexer/automata/*.rs'),('position tracking','src/syntax/lexer/cursor.rs')])
p('H11','Operators bind by precedence and associativity, no statement is lost',
 'An expression groups as if fully parenthesised by the precedence order (tightest first) call, index, field access and `?`; prefix - and not; * / %; + -; ++; comparisons; == !=; and; or, with binary operators associating to the left. Redundant parentheses, line breaks between tokens, trailing commas and comments do not change what a program does. Every statement of an accepted program becomes part of it, in the order written, including elseif chains and nested functions.',
 ['programs'],'every expression and statement sequence',
 'Operator combinations are unbounded; tests parse fixed files and check only that parsing succeeds.',
 [P,'src/syntax/ast/mod.rs','src/syntax/lexer/token/mod.rs'],[('precedence climbing',P+': parse_expression, parse_binop, parse_prefix, parse_postfix'),('block parsing',P+': parse, parse_block, parse_condblock')])
p('H12','Command arguments reach the program exactly as written',
 'Each argument of a command is passed as one argument made of the literal bytes, quoted text and variable values it spells: values are never split at white space, never expanded as patterns, and an empty quoted or substituted string is still one argument. An array variable yields one argument per element, combined with the surrounding text of the word and with the other arrays in it as a cartesian product, and an unquoted * or % matches existing file names while the literal and substituted text around it matches only itself. Values that have no text form (dicts, functions, errors, nested arrays) raise a panic and the command does not run.',
 ['inputs','programs'],'every word of every command, every value substituted into it, every byte',
 'The bytes of substituted values (quotes, spaces, pattern characters, newlines, invalid UTF-8) and the combinations of parts are unbounded; tests pass plain words.',
 [C,'src/runtime/command/arg.rs',E,'src/syntax/parser/command.rs','src/syntax/lexer/automata/argument.rs','src/syntax/lexer/automata/expansion.rs'],
 [('argument assembly',C+': build_argument, build_basic_value; src/runtime/command/arg.rs: Args'),('pattern escaping','src/runtime/command/arg.rs: pattern_escape'),('word lexing and merging','src/syntax/lexer/automata/argument.rs; src/syntax/parser/command.rs: build_arg')],
 ['argv and environment of the spawned process'])
p('H13','Command failures are reported and stop the block as requested',
 'A command block runs its commands in order and has the value nil when every command of every pipeline exits with status 0, and otherwise an error that reports, in order, the exit status of each command that failed (128 plus the number for a command killed by a signal). When a command fails, the rest of the block is not run, unless the command is marked with `?`, in which case the block goes on and still reports the failure. All commands of a pipeline run and all of them are waited for before the block goes on.',
 ['inputs','programs','schedules'],'every block shape, every combination of exit statuses, signals and `?` marks, every order in which the processes of a pipeline end',
 'Statuses of several commands combine with the marks; tests check one bail-out script.',
 [E,'src/runtime/command/exec/error.rs',C,'src/syntax/parser/command.rs'],
 [('status collection',E+': ErrorStatus::wait_child, Command::exec, Block::_exec'),('error values','src/runtime/command/exec/error.rs: into_value')],
 ['value of the command block','which commands ran'])
p('H14','Redirections, pipelines and captures carry exactly the right bytes',
 'Redirections of a command apply in the order written: > truncates and >> appends to the named file, 2>1 sends standard error to where standard output goes at that point, < reads the file and << supplies the given text followed by a newline, whatever its size. In a pipeline the standard output of each command is the input of the next, only the last command writes to the standard output of the block, and an environment assignment affects only its own command. A capture block yields all bytes written to standard output and to standard error, separately, whatever their amount or interleaving and whether or not the commands fail.',
 ['inputs','programs','schedules'],'every sequence of redirections, pipeline length, amount and content of data, interleaving of the processes',
 'The order and number of redirections and the volume of data are unbounded (pipes fill at 64 KiB); tests use one of each.',
 [E,C],[('redirection application',E+': BasicCommand::spawn, resolve_target'),('pipe plumbing',E+': Command::exec'),('capture threads',C+': eval_command_block')],
 ['files and captured strings'])
p('H15','Iteration visits every element exactly once, in order',
 'std.range(from, to, step) yields from, from+step, ... strictly before to (beyond it for a negative step) and then ends, for all ints including those near the 64-bit limits, and for floats. std.iter yields the elements of an array and the bytes of a string in order and each key and value of a dict once, also when the collection has one element or none, and a finished iterator stays finished. A for loop runs its body once per item produced by any iterator function, in order, and calls the iterator no more after it finishes.',
 ['inputs','histories'],'every range triple, every collection, every iterator function',
 'Ranges near the integer limits, empty collections and user-written iterators form an unbounded input space; tests loop over two or three small collections.',
 ['src/runtime/lib/range.rs','src/runtime/lib/iter.rs',R],[('range step','src/runtime/lib/range.rs'),('collection iterator','src/runtime/lib/iter.rs'),('for loop protocol',R+': Statement::For')])
p('H16','Conversions and encodings round-trip',
 'std.int of the text of an int, std.float of the text of a finite float, and decoding of the hex, base64 or JSON encoding of a value (JSON: nil, bools, ints, finite floats, UTF-8 strings, arrays, and dicts with string keys) give back a value equal to the original; text that is not a number raises a panic and data that is not a valid encoding gives an error value, never a wrong value or an abort. std.int of a float truncates towards zero. std.split, std.replace and std.trim treat their inputs as plain bytes: joining the parts of a split with the separator gives back the string, replacing substitutes every non-overlapping occurrence, and trimming removes only leading and trailing white space.',
 ['inputs'],'every convertible value and every byte string',
 'The input spaces (all strings, all ints, all nested values) cannot be sampled by a few cases.',
 ['src/runtime/lib/int.rs','src/runtime/lib/float.rs','src/runtime/lib/to_string.rs','src/runtime/lib/hex.rs','src/runtime/lib/base64.rs','src/runtime/lib/json.rs','src/runtime/lib/split.rs','src/runtime/lib/replace.rs','src/runtime/lib/trim.rs','src/runtime/lib/bytes.rs'],
 [('conversion functions','src/runtime/lib/{int,float,to_string,hex,base64,json,split,replace,trim}.rs')])
p('H17','No script text crashes or hangs the front end',
 'For every byte sequence given as a script (nesting of blocks, parentheses and operators up to 100 levels), lexing, parsing and analysis end, and the outcome is either acceptance or at least one diagnostic and exit status 2; the interpreter never aborts, hangs or executes a rejected script. Each diagnostic names a line that exists in the script (or its end).',
 ['inputs'],'every byte sequence',
 'Error recovery is reached only by malformed inputs, of which the tests contain a few dozen.',
 ['src/syntax/lexer/automata/mod.rs','src/syntax/lexer/automata/argument.rs','src/syntax/parser/mod.rs','src/syntax/parser/sync.rs','src/syntax/parser/command.rs',S],
 [('lexer transitions consume or stop','src/syntax/lexer/automata/*.rs'),('parser synchronisation makes progress','src/syntax/parser/sync.rs, src/syntax/parser/mod.rs')])
with open('/verif/properties.jsonl','w') as f:
    for d in props:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
