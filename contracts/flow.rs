//@ module: src/runtime/mod.rs
// H05: loops, blocks and returns.  H06: Runtime::call.
include!("_rt.rs");
use program::{Expr, Statement, Block};
use std::ops::Deref;

ast! {
	WHILE: Statement = Statement::While { condition: cid(1), block: cempty() };
	FOR: Statement = Statement::For { slot_ix: cslot(0), expr: cid(1), block: cempty() };
	SS: [Statement; 3] = [Statement::Expr(cid(1)), Statement::Expr(cid(2)), Statement::Expr(cid(3))];
	RETURN: Statement = Statement::Return { expr: cid(1) };
	BREAK: Statement = Statement::Break;
	EXPR: Statement = Statement::Expr(cid(1));
}
fn events(want: &[u32]) -> bool {
	unsafe {
		if N != want.len() { return false; }
		let mut i = 0;
		while i < want.len() { if LOG[i] != want[i] { return false; } i += 1; }
		true
	}
}
fn any_out() -> u8 { let o: u8 = kani::any(); kani::assume(o < 10 || o >= ERR && o <= RET); o }
fn left(o: u8) -> bool { o >= ERR }

// ---- the callees of loops, at their contracts: the i-th evaluation has outcome A[i], B[i] ----
static mut A: [u8; 4] = [0; 4];
static mut AB: [bool; 4] = [false; 4];
static mut NA: usize = 0;
static mut B: [u8; 4] = [0; 4];
static mut NB: usize = 0;
fn seq_expr(_: &mut Runtime, _: &'static Expr) -> Result<(Flow, SourcePos, Value), Panic> {
	log(1);
	unsafe {
		let (o, b) = (A[NA], AB[NA]); NA += 1;
		match o {
			ERR => Err(Panic::assertion_failed(lpos(1))), BRK => Ok((Flow::Break, lpos(1), Value::Nil)), RET => Ok((Flow::Return(Value::Int(1001)), lpos(1), Value::Nil)),
			1 => Ok((Flow::Regular(Value::Bool(b)), lpos(1), Value::Nil)),
			2 => Ok((Flow::Regular(Value::Int(7)), lpos(1), Value::Nil)),
			8 => Ok((Flow::Regular(Value::from(Nop)), lpos(1), Value::Nil)),
			_ => Ok((Flow::Regular(Value::Nil), lpos(1), Value::Nil)),
		}
	}
}
fn seq_block(_: &mut Runtime, _: &'static Block) -> Result<Flow, Panic> {
	log(2);
	unsafe {
		let o = B[NB]; NB += 1;
		match o { ERR => Err(Panic::assertion_failed(lpos(2))), BRK => Ok(Flow::Break), RET => Ok(Flow::Return(Value::Int(1002))), _ => Ok(Flow::Regular(Value::Int(3))) }
	}
}

//@ harness while_loop property=H05,H04
//@ claim: while: the condition before each iteration, the body once after each true one; ends at the first false condition or break of the body, with value nil; a return or panic of either, a break of the condition, and a condition that is not a bool end it at once, as themselves
//@ bound: the loop ends within 3 evaluations of the condition (iterations carry no state but the runtime, which is opaque here)
//@ functions: Runtime::eval_tail_statement
//@ assumes: eval_expr and eval_block are taken at their contracts: any outcome at each evaluation
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, seq_expr)] #[kani::stub(Runtime::eval_block, seq_block)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::call, never_call)]
fn while_loop() {
	let s = of!(WHILE: Statement);
	let mut rt = rt();
	reset();
	let mut i = 0;
	while i < 3 { unsafe { A[i] = any_out(); AB[i] = kani::any(); B[i] = any_out(); } i += 1; }
	// the third condition ends the loop if nothing did before
	unsafe { kani::assume(!(A[2] == 1 && AB[2])); }
	let x = std::mem::ManuallyDrop::new(rt.eval_tail_statement(st(s), |_| ()));
	// what the language says, step by step
	let (mut n, mut ended) = (0, false);
	let mut i = 0;
	while i < 3 && !ended {
		let (a, ab, b) = unsafe { (A[i], AB[i], B[i]) };
		assert!(unsafe { N > n && LOG[n] == 1 }, "[H05.while] the condition is tested before each iteration");
		n += 1;
		if a == ERR { ended = true; assert!(matches!(&*x, Err(p) if p.kind == pk::ASSERTION && p.pos.line == 1), "[H05.while] a panic of the condition is passed on"); }
		else if a == BRK { ended = true; assert!(matches!(&*x, Ok(Flow::Break)), "[H04.while] a break in the condition is passed on"); }
		else if a == RET { ended = true; assert!(matches!(&*x, Ok(Flow::Return(Value::Int(1001)))), "[H05.while] a return in the condition is passed on"); }
		else if a != 1 { ended = true; assert!(matches!(&*x, Err(p) if p.kind == pk::INVALID_CONDITION), "[H05.while] a condition that is not a bool panics"); }
		else if !ab { ended = true; assert!(matches!(&*x, Ok(Flow::Regular(Value::Nil))), "[H05.while] a false condition ends the loop with nil"); }
		else {
			assert!(unsafe { N > n && LOG[n] == 2 }, "[H05.while] the body runs after a true condition");
			n += 1;
			if b == ERR { ended = true; assert!(matches!(&*x, Err(p) if p.kind == pk::ASSERTION && p.pos.line == 2), "[H05.while] a panic of the body is passed on"); }
			else if b == BRK { ended = true; assert!(matches!(&*x, Ok(Flow::Regular(Value::Nil))), "[H05.while] break ends the loop with nil, and only the loop"); }
			else if b == RET { ended = true; assert!(matches!(&*x, Ok(Flow::Return(Value::Int(1002)))), "[H05.while] return leaves the loop with its value"); }
		}
		i += 1;
	}
	assert!(ended && unsafe { N } == n, "[H05.while] nothing runs after the loop ended");
	kani::cover!(n == 5, "two iterations are reached");
}
fn never_call(_: &mut Runtime, _: Value, _: &Function, _: usize, _: SourcePos) -> Result<Value, Panic> { panic!("MODEL: no call expected") }

// ---- blocks ----
fn seq_statement(_: &mut Runtime, s: &'static Statement) -> Result<Flow, Panic> { one_statement(s) }
fn seq_tail_statement<F: FnOnce(&mut Runtime)>(_: &mut Runtime, s: &'static Statement, _: F) -> Result<Flow, Panic> { one_statement(s) }
fn one_statement(s: &'static Statement) -> Result<Flow, Panic> {
	let k = match s { Statement::Expr(Expr::Identifier { slot_ix, .. }) => slot_ix.0, _ => panic!("MODEL: leaf expected") };
	log(k);
	match unsafe { OUT[k as usize] } { ERR => Err(Panic::assertion_failed(lpos(k))), BRK => Ok(Flow::Break), RET => Ok(Flow::Return(Value::Int(1000 + k as i64))), _ => Ok(Flow::Regular(Value::Int(2000 + k as i64))) }
}
fn block_case(n: usize) {
	node!(b, Block(cbxs(&SS, n)));
	let mut rt = rt();
	reset();
	unsafe { OUT[1] = any_out(); OUT[2] = any_out(); OUT[3] = any_out(); }
	let x = std::mem::ManuallyDrop::new(rt.eval_tail_block(st(b), |_| ()));
	let mut i = 1;
	while i <= n {
		assert!(unsafe { N >= i && LOG[i - 1] == i as u32 }, "[H05.block] statements run in order, once each");
		let o = unsafe { OUT[i] };
		if left(o) {
			assert!(unsafe { N } == i, "[H05.block] no statement runs after one that leaves");
			match (o, &*x) {
				(ERR, Err(p)) => assert!(p.pos.line == i as u32, "[H05.block] the panic is passed on"),
				(BRK, Ok(Flow::Break)) => (),
				(RET, Ok(Flow::Return(Value::Int(v)))) => assert!(*v == 1000 + i as i64, "[H05.block] the returned value is passed on"),
				_ => assert!(false, "[H05.block] the outcome of the statement that leaves is the outcome of the block"),
			}
			return;
		}
		i += 1;
	}
	assert!(unsafe { N } == n, "[H05.block] statements run once each");
	match &*x {
		Ok(Flow::Regular(Value::Nil)) => assert!(n == 0, "[H05.block] the value of the last statement"),
		Ok(Flow::Regular(Value::Int(v))) => assert!(n > 0 && *v == 2000 + n as i64, "[H05.block] the value of the last statement"),
		_ => assert!(false, "[H05.block] a block whose statements all end has their value"),
	}
}
//@ harness block_seq property=H05
//@ claim: a block: its statements in order, once each, until one leaves, whose outcome is the block's; otherwise the value of the last one; nil for an empty block; for every outcome of each
//@ bound: blocks of 0 and 3 statements
//@ functions: Runtime::eval_tail_block
//@ assumes: eval_statement and eval_tail_statement are taken at their contracts: any outcome
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_statement, seq_statement)] #[kani::stub(Runtime::eval_tail_statement, seq_tail_statement)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn block_seq() { if kani::any() { block_case(0) } else { block_case(3) } }

//@ harness return_break property=H05,H04
//@ claim: return delivers its value once evaluated and passes on an operand that leaves; break breaks; an expression statement has the outcome of its expression
//@ functions: Runtime::eval_tail_statement
//@ assumes: eval_tail_expr is taken at its contract: any outcome
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_tail_expr, tail_leaf)] #[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_block, seq_block)] #[kani::stub(Runtime::call, never_call)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn return_break() {
	let which: u8 = kani::any();
	let (r, b, e) = (of!(RETURN: Statement), of!(BREAK: Statement), of!(EXPR: Statement));
	let mut rt = rt();
	fresh(); reset();
	let a = any_out();
	unsafe { OUT[1] = a; }
	if which == 0 {
		let x = std::mem::ManuallyDrop::new(rt.eval_tail_statement(st(b), |_| ()));
		assert!(events(&[]) && matches!(&*x, Ok(Flow::Break)), "[H05.break] break breaks");
		return;
	}
	let x = std::mem::ManuallyDrop::new(if which == 1 { rt.eval_tail_statement(st(r), |_| ()) } else { rt.eval_tail_statement(st(e), |_| ()) });
	assert!(events(&[1]), "[H04.return] the operand once");
	match (a, &*x) {
		(ERR, Err(p)) => assert!(p.pos.line == 1, "[H05.return] a panic of the operand is passed on"),
		(BRK, Ok(Flow::Break)) => (),
		(RET, Ok(Flow::Return(Value::Int(1001)))) => (),
		(a, Ok(Flow::Return(v))) => assert!(which == 1 && kind(v) == a && (a != 2 || matches!(v, Value::Int(n) if *n == unsafe { INT[1] })), "[H05.return] return delivers the value of its operand"),
		(a, Ok(Flow::Regular(v))) => assert!(which > 1 && kind(v) == a, "[H05.statement] an expression statement has the value of its expression"),
		_ => assert!(false, "[H05.return] no other outcome"),
	}
}
fn tail_leaf<F: FnOnce(&mut Runtime)>(rt: &mut Runtime, expr: &'static Expr, _: F) -> Result<(Flow, SourcePos, Value), Panic> { stub_eval_expr(rt, expr) }

// ---- for ----
use value::IndexOutOfBounds;
static mut NC: usize = 0;
/// What the i-th call of the iterator gives: 0..10 a value of that type, or a panic.
static mut C: [u8; 4] = [0; 4];
/// The `finished` (F) and `value` (V) fields of the i-th item: 0 false, 1 true, 2 missing, 3 another type.
static mut F: [u8; 4] = [0; 4];
static mut V: [u8; 4] = [0; 4];
static mut ITEM: [i64; 4] = [0; 4];
static mut SEEN: [i64; 4] = [0; 4];
fn seq_call(rt: &mut Runtime, obj: Value, function: &Function, args_start: usize, pos: SourcePos) -> Result<Value, Panic> {
	log(3);
	assert!(rt.arguments.len() == args_start, "[H15.for] the iterator is called without arguments");
	assert!(matches!(function, Function::Rust(_)), "[H15.for] the iterator is what is called");
	std::mem::forget((obj, pos));
	unsafe {
		let o = C[NC]; NC += 1;
		match o { ERR => Err(Panic::assertion_failed(lpos(3))), 7 => Ok(Value::Dict(Dict::new(HashMap::new()))), 1 => Ok(Value::Bool(true)), 8 => Ok(Value::from(Nop)), _ => Ok(Value::Nil) }
	}
}
fn item_get(_: &Dict, key: &Value) -> Result<Value, IndexOutOfBounds> {
	let n = match key { Value::String(s) => s.len(), _ => panic!("MODEL: string key expected") };
	unsafe {
		let i = NC - 1;
		if n == 8 { log(4); match F[i] { 0 => Ok(Value::Bool(false)), 1 => Ok(Value::Bool(true)), 2 => Err(IndexOutOfBounds), _ => Ok(Value::Nil) } }
		else if n == 5 { log(5); if V[i] == 2 { Err(IndexOutOfBounds) } else { Ok(Value::Int(ITEM[i])) } }
		else { panic!("MODEL: unknown key") }
	}
}
fn item_block(rt: &mut Runtime, b: &'static Block) -> Result<Flow, Panic> {
	unsafe { SEEN[NB] = match std::mem::ManuallyDrop::new(rt.stack.fetch(mem::SlotIx(0))).deref() { Value::Int(v) => *v, _ => panic!("MODEL: item expected") }; }
	seq_block(rt, b)
}
//@ harness for_head property=H15,H05,H04
//@ claim: for: the iterator expression once; anything but a function panics, and an expression that leaves is passed on; the iterator is not called
//@ functions: Runtime::eval_tail_statement
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, seq_expr)] #[kani::stub(Runtime::eval_block, seq_block)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::call, head_call)]
fn for_head() {
	let s = of!(FOR: Statement);
	let mut rt = rt();
	reset();
	let a = any_out();
	unsafe { A[0] = a; }
	let x = std::mem::ManuallyDrop::new(rt.eval_tail_statement(st(s), |_| ()));
	assert!(unsafe { N > 0 && LOG[0] == 1 && NA == 1 }, "[H04.for] the iterator expression is evaluated first, once");
	if left(a) {
		assert!(unsafe { N } == 1, "[H04.for] nothing runs when the iterator expression leaves");
		assert!(match (a, &*x) { (ERR, Err(p)) => p.pos.line == 1, (BRK, Ok(Flow::Break)) => true, (RET, Ok(Flow::Return(Value::Int(1001)))) => true, _ => false }, "[H04.for] its outcome is passed on");
		return;
	}
	if a != 8 { assert!(unsafe { N } == 1 && matches!(&*x, Err(p) if p.kind == pk::TYPE_ERROR), "[H15.for] an iterator that is not a function panics"); return; }
	assert!(unsafe { NC } == 1, "[H15.for] a function is called");
	kani::cover!(unsafe { NC } == 1, "calls are reached");
}
fn head_call(_: &mut Runtime, obj: Value, _: &Function, _: usize, pos: SourcePos) -> Result<Value, Panic> { unsafe { NC += 1; log(3); } std::mem::forget(obj); Err(Panic::assertion_failed(pos)) }
//@ harness for_loop property=H15,H05
//@ claim: for: per iteration one call without arguments, its `finished` and `value` fields read, the loop variable set and the body run once; ends at the first finished item or break; a malformed item, a return or a panic ends it as itself, and the iterator is not called again
//@ bound: the loop ends within 2 calls of the iterator
//@ functions: Runtime::eval_tail_statement, Stack::store
//@ assumes: eval_expr, eval_block, Runtime::call and Dict::get are taken at their contracts: any outcome at each evaluation
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, seq_expr)] #[kani::stub(Runtime::eval_block, item_block)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
#[kani::stub(Runtime::call, seq_call)] #[kani::stub(Dict::get, item_get)]
fn for_loop() {
	let s = of!(FOR: Statement);
	let mut rt = rt();
	let _ = rt.stack.extend(mem::SlotIx(1));
	reset();
	let mut i = 0;
	while i < 2 { unsafe { C[i] = any_out(); F[i] = kani::any(); V[i] = kani::any(); ITEM[i] = kani::any(); B[i] = any_out(); kani::assume(C[i] != BRK && C[i] != RET && F[i] < 4 && V[i] < 3); } i += 1; }
	let a = any_out();
	kani::assume(a == 8);
	unsafe { A[0] = a; kani::assume(F[1] != 0 || V[1] == 2 || left(B[1]) || C[1] != 7); }
	let x = std::mem::ManuallyDrop::new(rt.eval_tail_statement(st(s), |_| ()));
	assert!(unsafe { N > 0 && LOG[0] == 1 && NA == 1 }, "[H04.for] the iterator expression is evaluated first, once");
	let (mut calls, mut blocks, mut ended) = (0, 0, false);
	let mut i = 0;
	while i < 2 && !ended {
		let (c, f, v, b) = unsafe { (C[i], F[i], V[i], B[i]) };
		calls += 1;
		if c == ERR { ended = true; assert!(matches!(&*x, Err(p) if p.kind == pk::ASSERTION && p.pos.line == 3), "[H15.for] a panic of the iterator is passed on"); }
		else if c != 7 { ended = true; assert!(matches!(&*x, Err(p) if p.kind == pk::TYPE_ERROR), "[H15.for] an item that is not a dict panics"); }
		else if f == 2 { ended = true; assert!(matches!(&*x, Err(p) if p.kind == pk::INDEX), "[H15.for] an item without `finished` panics"); }
		else if f == 3 { ended = true; assert!(matches!(&*x, Err(p) if p.kind == pk::TYPE_ERROR), "[H15.for] `finished` must be a bool"); }
		else if f == 1 { ended = true; assert!(matches!(&*x, Ok(Flow::Regular(Value::Nil))), "[H15.for] a finished iterator ends the loop with nil"); }
		else if v == 2 { ended = true; assert!(matches!(&*x, Err(p) if p.kind == pk::INDEX), "[H15.for] an item without `value` panics"); }
		else {
			assert!(unsafe { NB > blocks && SEEN[blocks] == ITEM[i] }, "[H15.for] the body runs once per item, with the loop variable set to it");
			blocks += 1;
			if b == ERR { ended = true; assert!(matches!(&*x, Err(p) if p.pos.line == 2), "[H05.for] a panic of the body is passed on"); }
			else if b == BRK { ended = true; assert!(matches!(&*x, Ok(Flow::Regular(Value::Nil))), "[H05.for] break ends the loop with nil, and only the loop"); }
			else if b == RET { ended = true; assert!(matches!(&*x, Ok(Flow::Return(Value::Int(1002)))), "[H05.for] return leaves the loop with its value"); }
		}
		i += 1;
	}
	assert!(ended && unsafe { NC == calls && NB == blocks }, "[H15.for] nothing runs, and the iterator is not called, after the loop ended");
	kani::cover!(blocks == 2, "two iterations are reached");
}

// ---- Runtime::call ----
static mut BODY: u8 = 0;
static mut TAILS: bool = false;
static mut RAN: u32 = 0;
/// The body of a function as its caller sees it: it may do anything to its own frame, may end
/// in a tail call, and has any outcome but a break (rejected statically).
fn body_block<F: FnOnce(&mut Runtime)>(rt: &mut Runtime, _: &'static Block, tail_call: F) -> Result<Flow, Panic> {
	unsafe {
		RAN += 1;
		log(2);
		let get = |rt: &Runtime, i: u32| match &*std::mem::ManuallyDrop::new(rt.stack.fetch(mem::SlotIx(i))) { Value::Int(v) => *v, Value::Nil => -1, _ => -2 };
		let mut i = 0;
		while i < 4 { SEEN[i as usize] = get(rt, i); i += 1; }
		FRAME = rt.stack.len();
		rt.stack.store(mem::SlotIx(0), Value::Int(99)); rt.stack.store(mem::SlotIx(1), Value::Int(98)); rt.stack.store(mem::SlotIx(2), Value::Int(97)); rt.stack.store(mem::SlotIx(3), Value::Int(96));
		if TAILS { tail_call(rt); AFTER_TAIL = rt.stack.len(); }
		match BODY { ERR => Err(Panic::assertion_failed(lpos(2))), RET => Ok(Flow::Return(Value::Int(1002))), _ => Ok(Flow::Regular(Value::Int(3))) }
	}
}
static mut FRAME: usize = 0;
static mut AFTER_TAIL: usize = 0;
//@ harness call_hush property=H06,H08
//@ claim: calling a Hush function: arguments, captured variables and self are in their slots, other locals are nil, the body runs once in a fresh frame and its value or panic is the call's; afterwards the caller's frame and pending arguments are as before, whether the body ended, returned, panicked or made a tail call
//@ bound: two arguments, one captured variable, frame of four slots
//@ functions: Runtime::call, Stack::extend, Stack::shrink, Stack::store, Stack::place, Slot::store, Slot::place
//@ assumes: eval_tail_block is taken at its contract: any outcome, any change to the callee's own frame
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_tail_block, body_block)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn call_hush() {
	let params: u32 = 2;
	let has_self: bool = kani::any();
	node!(body, Block(Box::new([])));
	node!(info, program::mem::FrameInfo { slots: program::mem::SlotIx(4), captures: Box::new([]), self_slot: if has_self { Some(program::mem::SlotIx(3)) } else { None } });
	let cell = gc::Gc::new(gc::GcCell::new(Value::Int(50)));
	let f = std::mem::ManuallyDrop::new(Function::Hush(HushFun::new(params, st(info), st(body), Box::new([(cell.clone(), mem::SlotIx(2))]), pos())));
	let max = 100;
	let mut rt = std::mem::ManuallyDrop::new(Runtime { stack: Stack::new(max), arguments: Vec::new(), std: Value::Nil, interner: symbol::Interner::new(), modules: HashMap::new(), args: Value::Nil });
	let _ = rt.stack.extend(mem::SlotIx(2));
	rt.stack.store(mem::SlotIx(0), Value::Int(10)); rt.stack.store(mem::SlotIx(1), Value::Int(11));
	rt.arguments.push(Value::Int(-5)); // a pending argument of the caller
	rt.arguments.push(Value::Int(20)); rt.arguments.push(Value::Int(21));
	reset();
	unsafe { BODY = any_out(); TAILS = kani::any(); kani::assume(BODY != BRK); }
	let x = std::mem::ManuallyDrop::new(rt.call(Value::Int(30), &f, 1, pos()));
	{
		assert!(unsafe { RAN == 1 && FRAME == 6 }, "[H06.body] the body runs once, in a frame of its own");
		assert!(unsafe { SEEN[0] == 20 && SEEN[1] == 21 }, "[H06.args] each argument is bound to its parameter, in order");
		assert!(unsafe { SEEN[2] == 50 }, "[H08.capture] captured variables are in place");
		assert!(unsafe { SEEN[3] == if has_self { 30 } else { -1 } }, "[H06.self] self is the object; a local starts as nil");
		if unsafe { TAILS } { assert!(unsafe { AFTER_TAIL } == 2, "[H06.tail] a tail call runs in the caller's frame"); }
		assert!(matches!(&*cell.borrow(), Value::Int(97)), "[H08.capture] an assignment in the callee is seen through the captured variable");
		match (unsafe { BODY }, &*x) {
			(ERR, Err(p)) => assert!(p.kind == pk::ASSERTION && p.pos.line == 2, "[H06.value] the panic of the body is the panic of the call"),
			(RET, Ok(Value::Int(v))) => assert!(*v == 1002, "[H06.value] the returned value is the value of the call"),
			(o, Ok(Value::Int(v))) => assert!(!left(o) && *v == 3, "[H06.value] the value of the body is the value of the call"),
			_ => assert!(false, "[H06.value] no other outcome"),
		}
	}
	assert!(rt.stack.len() == 2, "[H06.frame] the caller's frame is the top frame again");
	let a = std::mem::ManuallyDrop::new(rt.stack.fetch(mem::SlotIx(0))); let b = std::mem::ManuallyDrop::new(rt.stack.fetch(mem::SlotIx(1)));
	assert!(matches!(*a, Value::Int(10)) && matches!(*b, Value::Int(11)), "[H06.frame] the caller's locals are unchanged");
	assert!(rt.arguments.len() == 1 && matches!(rt.arguments[0], Value::Int(-5)), "[H06.args] the caller's pending arguments are unchanged");
	kani::cover!(x.is_ok(), "completed calls are reached");
}

//@ harness call_refused property=H06
//@ claim: a call with any number of arguments but the declared one panics before the body runs; a frame beyond the limit is a stack overflow panic; the caller's frame and pending arguments are as before
//@ bound: two arguments given (the declared number is arbitrary)
//@ functions: Runtime::call
//@ assumes: Stack::extend is taken at its contract (mem.rs): here the frame does not fit
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_tail_block, body_block)] #[kani::stub(Runtime::eval_command_block, stub_cmd)] #[kani::stub(Stack::extend, no_room)]
fn call_refused() {
	let params: u32 = kani::any();
	node!(body, Block(Box::new([])));
	node!(info, program::mem::FrameInfo { slots: program::mem::SlotIx(4), captures: Box::new([]), self_slot: None });
	let f = std::mem::ManuallyDrop::new(Function::Hush(HushFun::new(params, st(info), st(body), Box::new([]), pos())));
	let mut rt = rt();
	rt.arguments.push(Value::Int(-5)); // a pending argument of the caller
	rt.arguments.push(Value::Int(20)); rt.arguments.push(Value::Int(21));
	reset();
	let x = std::mem::ManuallyDrop::new(rt.call(Value::Int(30), &f, 1, pos()));
	assert!(unsafe { RAN == 0 }, "[H06.refused] the body does not run");
	if params != 2 { assert!(matches!(&*x, Err(p) if p.kind == pk::INVALID_ARGS), "[H06.arity] any other number of arguments panics before the body runs"); }
	else { assert!(matches!(&*x, Err(p) if p.kind == pk::STACK_OVERFLOW), "[H06.overflow] a frame beyond the limit raises a stack overflow panic"); }
	assert!(rt.stack.len() == 0, "[H06.frame] the caller's frame is the top frame");
	assert!(rt.arguments.len() == 1 && matches!(rt.arguments[0], Value::Int(-5)), "[H06.args] the caller's pending arguments are unchanged");
	kani::cover!(params == 2, "overflows are reached");
}
fn no_room(_: &mut Stack, _: mem::SlotIx) -> Result<(), mem::StackOverflow> { Err(mem::StackOverflow) }

struct Probe;
static mut NATIVE_FAILS: bool = false;
impl NativeFun for Probe {
	fn name(&self) -> &'static str { "probe" }
	fn call(&self, context: CallContext) -> Result<Value, Panic> {
		unsafe {
			RAN += 1;
			let args = context.args();
			assert!(args.len() == 2 && matches!(args[0], Value::Int(20)) && matches!(args[1], Value::Int(21)), "[H06.native] a native function gets exactly the arguments of the call");
			assert!(matches!(context.obj, Value::Int(30)), "[H06.native] and the object as self");
			if kani::any() { context.runtime.arguments.push(Value::Int(1)); } // left behind by a panicking callback
			let pos = context.pos.copy();
			if NATIVE_FAILS { Err(Panic::assertion_failed(pos)) } else { Ok(Value::Int(77)) }
		}
	}
}
//@ harness call_native property=H06,H07
//@ claim: calling a native function: it gets exactly the arguments and the object; its value or panic is the call's; pending arguments are as before
//@ bound: two arguments
//@ functions: Runtime::call, CallContext::args
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_tail_block, body_block)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn call_native() {
	let f = std::mem::ManuallyDrop::new(Function::from(Probe));
	let mut rt = rt();
	rt.arguments.push(Value::Int(-5)); rt.arguments.push(Value::Int(20)); rt.arguments.push(Value::Int(21));
	unsafe { NATIVE_FAILS = kani::any(); }
	let x = std::mem::ManuallyDrop::new(rt.call(Value::Int(30), &f, 1, pos()));
	assert!(unsafe { RAN } == 1, "[H06.native] called once");
	match &*x {
		Ok(Value::Int(77)) => assert!(!unsafe { NATIVE_FAILS }, "[H06.native] its value is the value of the call"),
		Err(p) => assert!(unsafe { NATIVE_FAILS } && p.kind == pk::ASSERTION, "[H06.native] its panic is the panic of the call"),
		_ => assert!(false, "[H06.native] no other outcome"),
	}
	assert!(rt.arguments.len() == 1 && matches!(rt.arguments[0], Value::Int(-5)), "[H06.args] the caller's pending arguments are unchanged");
}
