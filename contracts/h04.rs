//@ module: src/runtime/mod.rs
// H04: sub-expressions are evaluated once, in order, and only when due.
// H05: conditionals, blocks and loops transfer control as written.
include!("_rt.rs");
use program::{BinaryOp, UnaryOp, Expr, Literal, Statement, Lvalue, Block};

ast! {
	ACCESS: Expr = Expr::Access { object: cbx(&X1), field: cbx(&X2), pos: cpos(3) };
	STORE: Statement = Statement::Assign { left: Lvalue::Access { object: cbx(&X2), field: cbx(&X3), pos: cpos(4) }, right: cid(1) };
	ASSIGN: Statement = Statement::Assign { left: Lvalue::Identifier { slot_ix: cslot(0), pos: cpos(4) }, right: cid(1) };
	ARGS: [Expr; 2] = [cid(2), cid(3)];
	CALL0: Expr = Expr::Call { function: cbx(&X1), args: cbxs(&ARGS, 0), pos: cpos(5) };
	CALL2: Expr = Expr::Call { function: cbx(&X1), args: cbxs(&ARGS, 2), pos: cpos(5) };
	ITEMS: [Expr; 2] = [cid(1), cid(2)];
	ARRAY: Literal = Literal::Array(cbxs(&ITEMS, 2));
	ONE: [Statement; 1] = [Statement::Break];
	IF: Expr = Expr::If { condition: cbx(&X1), then: Block(cbxs(&ONE, 1)), otherwise: Block(cbxs(&ONE, 0)), pos: cpos(3) };
}

/// The order of evaluation events so far.
fn events(want: &[u32]) -> bool {
	unsafe {
		if N != want.len() { return false; }
		let mut i = 0;
		while i < want.len() { if LOG[i] != want[i] { return false; } i += 1; }
		true
	}
}
fn left(o: u8) -> bool { o >= ERR }
/// The outcome `o` of leaf `k` is passed on unchanged: the panic, the return with its value, or the break.
fn passed_on(k: u32, o: u8, x: &Result<Flow, Panic>) -> bool {
	match (o, x) {
		(ERR, Err(p)) => p.kind == pk::ASSERTION && p.pos.line == k,
		(BRK, Ok(Flow::Break)) => true,
		(RET, Ok(Flow::Return(Value::Int(v)))) => *v == 1000 + k as i64,
		_ => false,
	}
}
fn flow(x: Result<(Flow, SourcePos, Value), Panic>) -> std::mem::ManuallyDrop<Result<Flow, Panic>> {
	std::mem::ManuallyDrop::new(match x { Ok((f, p, v)) => { std::mem::forget((p, v)); Ok(f) } Err(e) => Err(e) })
}
/// Any outcome of a sub-expression: a value of any of the ten types, a panic, a break, a return.
fn any_out() -> u8 { let o: u8 = kani::any(); kani::assume(o < 10 || o >= ERR && o <= RET); o }

// Contracts of the collections as their callers see them (discharged in coll.rs): an
// accessor records which one it was and the index, and succeeds or not.
use value::IndexOutOfBounds;
static mut WHICH: u8 = 0;
static mut IX: i64 = 0;
static mut KEYKIND: u8 = 99;
static mut STORED: i64 = 0;
static mut OPS: u32 = 0;
static mut OK: bool = true;
static mut LEN: i64 = 0;
fn op(which: u8) -> Result<Value, IndexOutOfBounds> { unsafe { WHICH = which; OPS += 1; if OK { Ok(Value::Int(500 + which as i64)) } else { Err(IndexOutOfBounds) } } }
fn stub_dict_get(_: &Dict, key: &Value) -> Result<Value, IndexOutOfBounds> { unsafe { KEYKIND = kind(key); } op(1) }
fn stub_array_index(_: &Array, ix: i64) -> Result<Value, IndexOutOfBounds> { unsafe { IX = ix; } op(2) }
fn stub_str_index(_: &Str, ix: i64) -> Result<Value, IndexOutOfBounds> { unsafe { IX = ix; } op(3) }
fn stub_error_get(_: &Error, key: &Value) -> Result<Value, IndexOutOfBounds> { unsafe { KEYKIND = kind(key); } op(4) }
fn stub_dict_insert(_: &Dict, key: Value, value: Value) { unsafe { KEYKIND = kind(&key); STORED = match &value { Value::Int(v) => *v, _ => -1 }; OPS += 1; WHICH = 5; } std::mem::forget((key, value)); }
fn stub_array_set(_: &Array, ix: i64, value: Value) -> Result<(), IndexOutOfBounds> {
	unsafe {
		STORED = match &value { Value::Int(v) => *v, _ => -1 }; std::mem::forget(value);
		IX = ix; WHICH = 6;
		if ix >= 0 && ix < LEN { OPS += 1; Ok(()) } else { Err(IndexOutOfBounds) }
	}
}
fn stub_array_len(_: &Array) -> i64 { unsafe { LEN } }

static mut CALLED: u32 = 0;
static mut ARGS_AT_CALL: [i64; 4] = [0; 4];
static mut NARGS: usize = 0;
static mut TAIL: u32 = 0;
static mut CALL_FAILS: bool = false;
fn stub_call(rt: &mut Runtime, obj: Value, function: &Function, args_start: usize, pos: SourcePos) -> Result<Value, Panic> {
	unsafe {
		CALLED += 1;
		log(50);
		NARGS = rt.arguments.len() - args_start;
		let mut i = 0;
		while i < NARGS { ARGS_AT_CALL[i] = match &rt.arguments[args_start + i] { Value::Int(v) => *v, _ => -1 }; i += 1; }
		rt.arguments.truncate(args_start);
		std::mem::forget(obj); let _ = (function, &pos);
		if CALL_FAILS { Err(Panic::stack_overflow(pos)) } else { Ok(Value::Int(77)) }
	}
}

/// Any operator but the logical ones (== and != have their own harness: they recurse over values).
fn any_op() -> BinaryOp {
	match kani::any::<u8>() {
		0 => BinaryOp::Plus, 1 => BinaryOp::Minus, 2 => BinaryOp::Times, 3 => BinaryOp::Div, 4 => BinaryOp::Mod, 5 => BinaryOp::Greater, 6 => BinaryOp::GreaterEquals,
		7 => BinaryOp::Lower, 8 => BinaryOp::LowerEquals, 9 => BinaryOp::Equals, 10 => BinaryOp::NotEquals, _ => BinaryOp::Concat,
	}
}
// The operators themselves have their own contracts (H01, H02); here only the order matters.
fn stub_arith(_: &mut Runtime, left: Value, left_pos: SourcePos, _: &'static BinaryOp, _: &SourcePos, right: Value, right_pos: SourcePos) -> Result<Value, Panic> {
	log(60); std::mem::forget((left, right, left_pos, right_pos)); Ok(Value::Int(1))
}
fn stub_ord(_: &mut Runtime, left: Value, left_pos: SourcePos, _: &'static BinaryOp, right: Value, right_pos: SourcePos) -> Result<Value, Panic> {
	log(60); std::mem::forget((left, right, left_pos, right_pos)); Ok(Value::Int(1))
}
/// Equality of heap values has its own contract (H02): here any answer is possible.
fn cut_eq() { unsafe { gc::EQ_CUT = true; gc::EQ_RESULT = kani::any(); } }
//@ harness operands property=H04
//@ claim: every binary operator but and/or: left operand, then right operand, once each, then the operator; a panic, return or break of an operand ends the evaluation and is passed on; for every outcome of both
//@ functions: Runtime::binary_op
//@ assumes: arithmetic_op and ord_op are taken at their contracts (H01, H02); so is the equality of values
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::arithmetic_op, stub_arith)] #[kani::stub(Runtime::ord_op, stub_ord)]
fn operands() {
	cut_eq();
	let (l, r) = (x1(), x2()); node!(op, any_op());
	let mut rt = rt();
	let (a, b) = (any_out(), any_out());
	reset();
	unsafe { OUT[1] = a; OUT[2] = b; }
	let x = std::mem::ManuallyDrop::new(rt.binary_op(st(l), st(op), st(r), &pos()));
	if left(a) { assert!(events(&[1]) && passed_on(1, a, &x), "[H04.binary] the right operand is not evaluated when the left one leaves"); return; }
	if left(b) { assert!(events(&[1, 2]) && passed_on(2, b, &x), "[H04.binary] both operands, left to right; the outcome of the right one is passed on"); return; }
	assert!(unsafe { N >= 2 && LOG[0] == 1 && LOG[1] == 2 && (N == 2 || N == 3 && LOG[2] == 60) }, "[H04.binary] both operands once, left to right, then the operator once");
	match &*x {
		Ok(Flow::Regular(v)) => if matches!(op, BinaryOp::Concat) { assert!(a == 5 && b == 5 && kind(v) == 5, "[H04.concat] two strings give a string"); },
		Ok(_) => assert!(false, "[H04.binary] operators do not transfer control"),
		Err(p) => assert!(matches!(op, BinaryOp::Concat) && !(a == 5 && b == 5) && p.kind == pk::TYPE_ERROR, "[H04.concat] any other type panics"),
	}
	kani::cover!(matches!(&*x, Ok(Flow::Regular(_))), "values are reached");
}

//@ harness logic property=H04
//@ claim: `and` and `or`: short circuit, types and order, for every outcome of both operands
//@ functions: Runtime::binary_op
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::arithmetic_op, stub_arith)] #[kani::stub(Runtime::ord_op, stub_ord)]
fn logic() { static AND: BinaryOp = BinaryOp::And; static OR: BinaryOp = BinaryOp::Or; if kani::any() { logic_case(true, &AND) } else { logic_case(false, &OR) } }
fn logic_case(and: bool, op: &'static BinaryOp) {
	cut_eq();
	let (l, r) = (x1(), x2());
	let mut rt = rt();
	let (a, b) = (any_out(), any_out());
	let (p, q): (bool, bool) = (kani::any(), kani::any());
	reset();
	unsafe { OUT[1] = a; OUT[2] = b; BOOL[1] = p; BOOL[2] = q; }
	let x = std::mem::ManuallyDrop::new(rt.binary_op(st(l), st(op), st(r), &pos()));
	if left(a) { assert!(events(&[1]) && passed_on(1, a, &x), "[H04.logic] the left operand leaves"); }
	else if a != 1 { assert!(events(&[1]) && matches!(&*x, Err(e) if e.kind == pk::TYPE_ERROR && e.pos.line == 1), "[H04.logic] a left operand that is not a bool panics"); }
	else if p != and { assert!(events(&[1]) && matches!(&*x, Ok(Flow::Regular(Value::Bool(v))) if *v == p), "[H04.logic] a deciding left operand is the result, the right one is not evaluated"); }
	else {
		assert!(events(&[1, 2]), "[H04.logic] otherwise the right operand is evaluated once");
		if left(b) { assert!(passed_on(2, b, &x), "[H04.logic] the right operand leaves"); }
		else if b != 1 { assert!(matches!(&*x, Err(e) if e.kind == pk::TYPE_ERROR && e.pos.line == 2), "[H04.logic] a right operand that is not a bool panics"); }
		else { assert!(matches!(&*x, Ok(Flow::Regular(Value::Bool(v))) if *v == q), "[H04.logic] the right operand is the result"); }
	}
	kani::cover!(unsafe { N } == 1, "short circuit is reached");
	kani::cover!(unsafe { N } == 2, "both operands are reached");
}

//@ harness unary property=H04,H05
//@ claim: not, ? and unary minus: the operand once; ? returns exactly when the operand is an error, with that error, and is the operand otherwise; `not` negates bools and panics on any other type
//@ functions: Runtime::unary_op
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn unary() {
	let l = x1();
	let j: u8 = kani::any();
	node!(op, match j { 0 => UnaryOp::Minus, 1 => UnaryOp::Not, _ => UnaryOp::Try });
	let mut rt = rt();
	fresh(); reset();
	let a = any_out();
	unsafe { OUT[1] = a; }
	let x = std::mem::ManuallyDrop::new(rt.unary_op(st(op), st(l)));
	assert!(events(&[1]), "[H04.unary] the operand is evaluated once");
	if left(a) { assert!(passed_on(1, a, &x), "[H04.unary] the operand leaves"); }
	else if j == 1 {
		match &*x {
			Ok(Flow::Regular(Value::Bool(v))) => assert!(a == 1 && *v == !unsafe { BOOL[1] }, "[H05.not] negation of a bool"),
			Err(p) => assert!(a != 1 && p.kind == pk::TYPE_ERROR, "[H05.not] any other type panics"),
			_ => assert!(false, "[H05.not] no other result"),
		}
	} else if j > 1 {
		match &*x {
			Ok(Flow::Return(v)) => assert!(a == 9 && kind(v) == 9, "[H05.try] ? returns the error"),
			Ok(Flow::Regular(v)) => assert!(a != 9 && kind(v) == a, "[H05.try] ? of anything else is its operand"),
			_ => assert!(false, "[H05.try] ? does not panic or break"),
		}
	}
}

//@ harness access property=H03,H04
//@ claim: object[field]: object then field, once each; reads exactly the index or key asked for (every int), with a type panic for other types and an index panic for a missing element; an object or field that leaves is passed on; for every outcome of both
//@ functions: Runtime::eval_tail_expr
//@ assumes: Array::index, Str::index, Dict::get, Error::get are taken at their contracts (coll.rs)
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::call, stub_call)]
#[kani::stub(Dict::get, stub_dict_get)] #[kani::stub(Dict::insert, stub_dict_insert)] #[kani::stub(Array::index, stub_array_index)] #[kani::stub(Array::set, stub_array_set)] #[kani::stub(Array::len, stub_array_len)] #[kani::stub(Str::index, stub_str_index)] #[kani::stub(Error::get, stub_error_get)]
fn access() {
	let e = of!(ACCESS: Expr);
	let mut rt = rt();
	fresh(); reset();
	let (a, b) = (any_out(), any_out());
	unsafe { OUT[1] = a; OUT[2] = b; OK = kani::any(); }
	let x = flow(rt.eval_tail_expr(st(e), |_| ()));
	if left(a) { assert!(events(&[1]) && passed_on(1, a, &x), "[H04.access] the object leaves, the field is not evaluated"); return; }
	assert!(events(&[1, 2]), "[H04.access] object, then field, once each");
	if left(b) { assert!(unsafe { OPS == 0 } && passed_on(2, b, &x), "[H04.access] the field leaves"); return; }
	let want = match (a, b) { (7, _) => 1, (6, 2) => 2, (5, 2) => 3, (9, _) => 4, _ => 0 };
	if want == 0 {
		assert!(unsafe { OPS == 0 } && matches!(&*x, Err(p) if p.kind == pk::TYPE_ERROR && p.pos.line == (if a == 5 || a == 6 { 2 } else { 1 })), "[H03.access] a type that cannot be indexed, or an index of the wrong type, panics");
	} else if unsafe { WHICH } != want {
		panic!("MODEL: the element is not read through the accessor");
	} else {
		if want == 2 || want == 3 { assert!(unsafe { IX == INT[2] }, "[H03.access] the index asked for"); }
		else { assert!(unsafe { KEYKIND == b }, "[H03.access] the key asked for"); }
		if unsafe { OK } { assert!(matches!(&*x, Ok(Flow::Regular(Value::Int(v))) if *v == 500 + want as i64), "[H03.access] the element is the result"); }
		else { assert!(matches!(&*x, Err(p) if p.kind == pk::INDEX && p.pos.line == 2), "[H03.access] no such element panics"); }
	}
	kani::cover!(matches!(&*x, Ok(Flow::Regular(_))), "reads are reached");
}

//@ harness store property=H03,H04,H05
//@ claim: assignment to an element: right-hand side, object, field, once each; stores the value at exactly the index (below the length) or key asked for and nothing otherwise, with the right panic; a part that leaves ends it; for every outcome of all three
//@ functions: Runtime::eval_tail_statement
//@ assumes: Array::set, Array::len and Dict::insert are taken at their contracts (coll.rs)
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::call, stub_call)]
#[kani::stub(Dict::get, stub_dict_get)] #[kani::stub(Dict::insert, stub_dict_insert)] #[kani::stub(Array::index, stub_array_index)] #[kani::stub(Array::set, stub_array_set)] #[kani::stub(Array::len, stub_array_len)] #[kani::stub(Str::index, stub_str_index)] #[kani::stub(Error::get, stub_error_get)]
fn store() {
	let s = of!(STORE: Statement);
	let mut rt = rt();
	fresh(); reset();
	let (v, a, b) = (any_out(), any_out(), any_out());
	unsafe { OUT[1] = v; OUT[2] = a; OUT[3] = b; LEN = kani::any(); kani::assume(LEN >= 0); }
	let x = std::mem::ManuallyDrop::new(rt.eval_tail_statement(st(s), |_| ()));
	if left(v) { assert!(events(&[1]) && passed_on(1, v, &x), "[H04.assign] the right-hand side first; when it leaves nothing else happens"); return; }
	if left(a) { assert!(events(&[1, 2]) && passed_on(2, a, &x), "[H04.assign] the object second"); return; }
	assert!(events(&[1, 2, 3]), "[H04.assign] right-hand side, object, field, once each");
	if left(b) { assert!(unsafe { OPS == 0 } && passed_on(3, b, &x), "[H04.assign] the field third"); return; }
	let ix = unsafe { INT[3] };
	let stored = unsafe { STORED == if v == 2 { INT[1] } else { -1 } };
	match (a, b) {
		(7, _) => {
			assert!(unsafe { OPS == 1 && KEYKIND == b } && stored, "[H03.store] the value is stored under the key asked for, once");
			assert!(matches!(&*x, Ok(Flow::Regular(Value::Nil))), "[H05.assign] an assignment has the value nil");
		}
		(6, 2) => if ix >= 0 && ix < unsafe { LEN } {
			assert!(unsafe { OPS == 1 && IX == ix } && stored, "[H03.store] the value is stored at the index asked for, once");
			assert!(matches!(&*x, Ok(Flow::Regular(Value::Nil))), "[H05.assign] an assignment has the value nil");
		} else {
			assert!(unsafe { OPS == 0 } && matches!(&*x, Err(p) if p.kind == pk::INDEX), "[H03.store] an index outside the array panics");
		},
		_ => {
			assert!(unsafe { OPS == 0 }, "[H03.store] nothing is stored");
			assert!(matches!(&*x, Err(p) if p.kind == (if a == 9 { pk::READONLY } else { pk::TYPE_ERROR })), "[H03.store] strings and error fields cannot be modified, other types have no elements, an array index is an int");
		}
	}
	kani::cover!(unsafe { OPS } == 1, "stores are reached");
}

//@ harness assign_var property=H04,H05,H08
//@ claim: assignment to a variable: the right-hand side once; the variable gets its value, or keeps the old one when the right-hand side leaves
//@ functions: Runtime::eval_tail_statement, Stack::store, Stack::fetch
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::call, stub_call)]
#[kani::stub(Dict::get, stub_dict_get)] #[kani::stub(Dict::insert, stub_dict_insert)] #[kani::stub(Array::index, stub_array_index)] #[kani::stub(Array::set, stub_array_set)] #[kani::stub(Array::len, stub_array_len)] #[kani::stub(Str::index, stub_str_index)] #[kani::stub(Error::get, stub_error_get)]
fn assign_var() {
	let v = of!(ASSIGN: Statement);
	let mut rt = rt();
	let _ = rt.stack.extend(mem::SlotIx(1));
	fresh(); reset();
	let a = any_out();
	unsafe { OUT[1] = a; }
	let x = std::mem::ManuallyDrop::new(rt.eval_tail_statement(st(v), |_| ()));
	assert!(events(&[1]), "[H04.assign] the right-hand side once");
	let now = std::mem::ManuallyDrop::new(rt.stack.fetch(mem::SlotIx(0)));
	if left(a) { assert!(passed_on(1, a, &x) && kind(&now) == 0, "[H04.assign] the variable keeps its value when the right-hand side leaves"); }
	else {
		assert!(matches!(&*x, Ok(Flow::Regular(Value::Nil))), "[H05.assign] an assignment has the value nil");
		assert!(kind(&now) == a && (a != 2 || matches!(*now, Value::Int(n) if n == unsafe { INT[1] })), "[H08.assign] the variable has the new value");
	}
}

fn call_case(nargs: usize) {
	let e = if nargs == 0 { of!(CALL0: Expr) } else { of!(CALL2: Expr) };
	let mut rt = rt();
	rt.arguments.push(Value::Int(-5)); // a pending argument of the caller
	fresh(); reset();
	let o = [any_out(), any_out(), any_out()];
	unsafe { OUT[1] = o[0]; OUT[2] = o[1]; OUT[3] = o[2]; CALL_FAILS = kani::any(); }
	let x = flow(rt.eval_tail_expr(st(e), |_| unsafe { TAIL += 1 }));
	if o[0] != 8 {
		assert!(events(&[1]) && unsafe { TAIL == 0 && CALLED == 0 }, "[H04.call] nothing after a function position that leaves or is not a function");
		if left(o[0]) { assert!(passed_on(1, o[0], &x), "[H04.call] the function position leaves"); }
		else { assert!(matches!(&*x, Err(p) if p.kind == pk::INVALID_CALL), "[H04.call] calling a value that is not a function panics"); }
		assert!(rt.arguments.len() == 1, "[H06.args] pending arguments stay");
		return;
	}
	let mut i = 1;
	while i <= nargs {
		if left(o[i]) {
			assert!(events(&[1, 2, 3][..1 + i]) && unsafe { TAIL == 0 && CALLED == 0 }, "[H04.call] the arguments in order, none after one that leaves, and no call");
			assert!(passed_on(1 + i as u32, o[i], &x), "[H04.call] the outcome of the argument is passed on");
			// after a panic the arguments are dropped by whoever catches it (H07)
			if o[i] != ERR { assert!(rt.arguments.len() == 1, "[H06.args] evaluated arguments are dropped again"); }
			return;
		}
		i += 1;
	}
	assert!(unsafe { N == nargs + 2 && LOG[nargs + 1] == 50 && TAIL == 1 && CALLED == 1 }, "[H04.call] function, arguments, then one call");
	assert!(unsafe { LOG[0] == 1 && (nargs < 1 || LOG[1] == 2) && (nargs < 2 || LOG[2] == 3) }, "[H04.call] function and arguments in order");
	assert!(unsafe { NARGS } == nargs, "[H06.args] all arguments are passed");
	let mut i = 0;
	while i < nargs { assert!(o[1 + i] != 2 || unsafe { ARGS_AT_CALL[i] == INT[2 + i] }, "[H06.args] each argument in its place"); i += 1; }
	match &*x {
		Ok(Flow::Regular(Value::Int(77))) => assert!(!unsafe { CALL_FAILS }, "[H05.call] the value of the call"),
		Err(p) => assert!(unsafe { CALL_FAILS } && p.kind == pk::STACK_OVERFLOW, "[H05.call] the panic of the call"),
		_ => assert!(false, "[H05.call] no other outcome"),
	}
	assert!(rt.arguments.len() == 1 && matches!(rt.arguments[0], Value::Int(-5)), "[H06.args] pending arguments stay");
}
//@ harness call0 property=H04,H05,H06
//@ claim: f(): the function position once; the call happens exactly when it is a function
//@ functions: Runtime::eval_tail_expr
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::call, stub_call)]
#[kani::stub(Dict::get, stub_dict_get)] #[kani::stub(Dict::insert, stub_dict_insert)] #[kani::stub(Array::index, stub_array_index)] #[kani::stub(Array::set, stub_array_set)] #[kani::stub(Array::len, stub_array_len)] #[kani::stub(Str::index, stub_str_index)] #[kani::stub(Error::get, stub_error_get)]
fn call0() { call_case(0) }
//@ harness call2 property=H04,H05,H06
//@ claim: f(a, b): function, then arguments once each in order, then one call with exactly those values; an argument that leaves prevents the call; no pending argument is left behind; for every outcome of all three
//@ bound: two arguments
//@ functions: Runtime::eval_tail_expr
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::call, stub_call)]
#[kani::stub(Dict::get, stub_dict_get)] #[kani::stub(Dict::insert, stub_dict_insert)] #[kani::stub(Array::index, stub_array_index)] #[kani::stub(Array::set, stub_array_set)] #[kani::stub(Array::len, stub_array_len)] #[kani::stub(Str::index, stub_str_index)] #[kani::stub(Error::get, stub_error_get)]
fn call2() { call_case(2) }

//@ harness array_literal property=H04,H03
//@ claim: array literals: items once each, in order, and the array has exactly those values; an item that leaves ends it
//@ bound: two items
//@ functions: Runtime::eval_literal
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn array_literal() {
	let e = of!(ARRAY: Literal);
	let mut rt = rt();
	fresh(); reset();
	let (a, b) = (any_out(), any_out());
	unsafe { OUT[1] = a; OUT[2] = b; }
	let x = std::mem::ManuallyDrop::new(rt.eval_literal(st(e), ppos()));
	if left(a) { assert!(events(&[1]) && passed_on(1, a, &x), "[H04.array] nothing after an item that leaves"); return; }
	assert!(events(&[1, 2]), "[H04.array] items once each, in order");
	if left(b) { assert!(passed_on(2, b, &x), "[H04.array] an item that leaves"); return; }
	match &*x {
		Ok(Flow::Regular(Value::Array(v))) => {
			let v = v.borrow();
			assert!(v.len() == 2 && kind(&v[0]) == a && kind(&v[1]) == b, "[H03.array] one element per item, in order");
			assert!(a != 2 || matches!(v[0], Value::Int(n) if n == unsafe { INT[1] }), "[H03.array] each item in its place");
			assert!(b != 2 || matches!(v[1], Value::Int(n) if n == unsafe { INT[2] }), "[H03.array] each item in its place");
		}
		_ => assert!(false, "[H04.array] the literal is an array"),
	}
}

// ---- control flow (H05): blocks are taken at their contract in the loops and conditionals ----
static mut BOUT: u8 = 0;
/// A block runs (logged by its number) with any outcome.
fn stub_block(_: &mut Runtime, block: &'static Block) -> Result<Flow, Panic> {
	let k = 30 + block.0.len() as u32;
	log(k);
	match unsafe { BOUT } { ERR => Err(Panic::assertion_failed(lpos(k))), BRK => Ok(Flow::Break), RET => Ok(Flow::Return(Value::Int(1000 + k as i64))), _ => Ok(Flow::Regular(Value::Int(2000 + k as i64))) }
}
//@ harness if_else property=H05,H04
//@ claim: if: the condition once; a bool runs exactly the branch it selects, once, and the branch's outcome is the result; any other type panics; a condition that leaves runs no branch
//@ functions: Runtime::eval_tail_expr
//@ assumes: eval_block is taken at its contract: any outcome
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::call, stub_call)] #[kani::stub(Runtime::eval_block, stub_block)]
#[kani::stub(Dict::get, stub_dict_get)] #[kani::stub(Dict::insert, stub_dict_insert)] #[kani::stub(Array::index, stub_array_index)] #[kani::stub(Array::set, stub_array_set)] #[kani::stub(Array::len, stub_array_len)] #[kani::stub(Str::index, stub_str_index)] #[kani::stub(Error::get, stub_error_get)]
fn if_else() {
	let e = of!(IF: Expr);
	let mut rt = rt();
	fresh(); reset();
	let a = any_out();
	unsafe { OUT[1] = a; BOUT = any_out(); }
	let x = flow(rt.eval_tail_expr(st(e), |_| ()));
	if left(a) { assert!(events(&[1]) && passed_on(1, a, &x), "[H04.if] the condition leaves, no branch runs"); return; }
	if a != 1 { assert!(events(&[1]) && matches!(&*x, Err(p) if p.kind == pk::INVALID_CONDITION), "[H05.if] a condition that is not a bool panics, no branch runs"); return; }
	let k = if unsafe { BOOL[1] } { 31 } else { 30 };
	assert!(events(&[1, k]), "[H05.if] exactly the selected branch runs, once");
	let o = unsafe { BOUT };
	if left(o) { assert!(passed_on(k, o, &x), "[H05.if] the outcome of the branch is passed on"); }
	else { assert!(matches!(&*x, Ok(Flow::Regular(Value::Int(v))) if *v == 2000 + k as i64), "[H05.if] the value of the branch"); }
}
