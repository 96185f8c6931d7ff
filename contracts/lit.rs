//@ module: src/runtime/mod.rs
// H08: closures capture variables.  H04, H03: dict literals.  H10, H01: literals denote their value.
include!("_rt.rs");
use program::{Expr, Literal, Block, mem::{Capture, FrameInfo}};

const fn cap(from: u32, to: u32) -> Capture { Capture { from: cslot(from), to: cslot(to) } }
ast! {
	CAPS: [Capture; 2] = [cap(2, 1), cap(0, 3)];
	CLOSURE: Literal = Literal::Function { params: 1, frame_info: FrameInfo { slots: cslot(4), captures: cbxs(&CAPS, 2), self_slot: None }, body: cempty() };
	PLAIN: Literal = Literal::Function { params: 3, frame_info: FrameInfo { slots: cslot(5), captures: cbxs(&CAPS, 0), self_slot: Some(cslot(4)) }, body: cempty() };
	PAIRS: [(Symbol, Expr); 2] = [(csym(1), cid(1)), (csym(2), cid(2))];
	DICT: Literal = Literal::Dict(cbxs(&PAIRS, 2));
	EMPTY: Literal = Literal::Dict(cbxs(&PAIRS, 0));
	IDENT: Literal = Literal::Identifier(csym(2));
}
fn int(v: &Value) -> i64 { match v { Value::Int(n) => *n, _ => -1 } }
fn get(rt: &Runtime, i: u32) -> i64 { int(&ManuallyDrop::new(rt.stack.fetch(mem::SlotIx(i)))) }

//@ harness closure property=H08,H06
//@ claim: a function literal: its parameters, frame and body are those of the literal; its context has one entry per captured variable, in order, each the very cell of the enclosing frame's slot together with the slot it takes in the function; evaluating it changes no variable; two closures over a variable share it, and see each other's assignments and those of the enclosing function
//@ bound: two captured variables, enclosing frame of three slots (contents arbitrary)
//@ functions: Runtime::eval_literal, HushFun::new, Stack::capture, Slot::capture
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn closure() {
	let l = of!(CLOSURE: Literal);
	let mut rt = rt();
	let _ = rt.stack.extend(mem::SlotIx(3));
	let (a, b, c, w): (i64, i64, i64, i64) = (kani::any(), kani::any(), kani::any(), kani::any());
	rt.stack.store(mem::SlotIx(0), Value::Int(a)); rt.stack.store(mem::SlotIx(1), Value::Int(b)); rt.stack.store(mem::SlotIx(2), Value::Int(c));
	reset();
	let x = ManuallyDrop::new(rt.eval_literal(st(l), plpos(9)));
	let y = ManuallyDrop::new(rt.eval_literal(st(l), plpos(9)));
	assert!(unsafe { N } == 0, "[H08.closure] nothing of the body is evaluated");
	assert!(get(&rt, 0) == a && get(&rt, 1) == b && get(&rt, 2) == c && rt.stack.len() == 3, "[H08.closure] making a closure changes no variable");
	let (f, g) = match (&*x, &*y) {
		(Ok(Flow::Regular(Value::Function(Function::Hush(f)))), Ok(Flow::Regular(Value::Function(Function::Hush(g))))) => (f, g),
		_ => { assert!(false, "[H08.closure] a function literal is a function"); return; }
	};
	let (info, body) = match l { Literal::Function { frame_info, body, .. } => (frame_info, body), _ => return };
	assert!(f.params == 1 && std::ptr::eq(f.frame_info, info) && std::ptr::eq(f.body, body) && f.pos.line == 9, "[H06.function] the function is that of the literal");
	assert!(f.context.len() == 2 && f.context[0].1.0 == 1 && f.context[1].1.0 == 3, "[H08.closure] one context entry per captured variable, for the slot it takes in the function");
	assert!(int(&f.context[0].0.borrow()) == c && int(&f.context[1].0.borrow()) == a, "[H08.closure] each entry is the captured variable");
	assert!(gc::Gc::ptr_eq(&f.context[0].0, &g.context[0].0) && gc::Gc::ptr_eq(&f.context[1].0, &g.context[1].0), "[H08.shared] closures share the variables they capture");
	if kani::any() { rt.stack.store(mem::SlotIx(2), Value::Int(w)); } else { *g.context[0].0.borrow_mut() = Value::Int(w); }
	assert!(int(&f.context[0].0.borrow()) == w && get(&rt, 2) == w && get(&rt, 0) == a, "[H08.shared] an assignment on either side is seen on the other");
}
//@ harness plain_function property=H06,H08
//@ claim: a function literal that captures nothing has an empty context and leaves the enclosing frame untouched
//@ functions: Runtime::eval_literal
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn plain_function() {
	let l = of!(PLAIN: Literal);
	let mut rt = rt();
	let x = ManuallyDrop::new(rt.eval_literal(st(l), plpos(9)));
	match &*x {
		Ok(Flow::Regular(Value::Function(Function::Hush(f)))) => assert!(f.params == 3 && f.context.len() == 0 && f.frame_info.slots.0 == 5, "[H06.function] the function is that of the literal"),
		_ => assert!(false, "[H06.function] a function literal is a function"),
	}
}

fn any_out() -> u8 { let o: u8 = kani::any(); kani::assume(o < 10 || o >= ERR && o <= RET); o }
fn left(o: u8) -> bool { o >= ERR }
fn passed(k: u32, o: u8, x: &Result<Flow, Panic>) -> bool {
	match (o, x) { (ERR, Err(p)) => p.pos.line == k, (BRK, Ok(Flow::Break)) => true, (RET, Ok(Flow::Return(Value::Int(v)))) => *v == 1000 + k as i64, _ => false }
}
fn names(_: &symbol::Interner, s: Symbol) -> Option<&[u8]> { if s == csym(1) { Some(b"k") } else { Some(b"vv") } }
//@ harness dict_literal property=H04,H03
//@ claim: dict literals: values once each, in order, each under its own name; a value that leaves ends it
//@ bound: two entries
//@ functions: Runtime::eval_literal
//@ assumes: the interner gives each symbol its own name; std's HashMap
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)] #[kani::stub(symbol::Interner::resolve, names)]
fn dict_literal() {
	let e = of!(DICT: Literal);
	let mut rt = rt();
	fresh(); reset();
	let (a, b) = (any_out(), any_out());
	unsafe { OUT[1] = a; OUT[2] = b; gc::EQ_CUT = true; gc::EQ_RESULT = false; }
	let x = ManuallyDrop::new(rt.eval_literal(st(e), ppos()));
	assert!(unsafe { N > 0 && LOG[0] == 1 }, "[H04.dict] the first value is evaluated first");
	if left(a) { assert!(unsafe { N } == 1 && passed(1, a, &x), "[H04.dict] nothing after a value that leaves"); return; }
	assert!(unsafe { N == 2 && LOG[1] == 2 }, "[H04.dict] values once each, in order");
	if left(b) { assert!(passed(2, b, &x), "[H04.dict] a value that leaves"); return; }
	match &*x {
		Ok(Flow::Regular(Value::Dict(v))) => {
			let v = v.borrow();
			assert!(v.len() == 2, "[H03.dict] one entry per name");
			let mut i = 0;
			for (k, v) in v.iter() {
				let n = match k { Value::String(s) => s.len(), _ => 0 };
				assert!(n == 1 || n == 2, "[H03.dict] keys are the names");
				if n == 1 { assert!(kind(v) == a && (a != 2 || int(v) == unsafe { INT[1] }), "[H03.dict] each value under its name"); }
				else { assert!(kind(v) == b && (b != 2 || int(v) == unsafe { INT[2] }), "[H03.dict] each value under its name"); }
				i += n;
			}
			assert!(i == 3, "[H03.dict] every name has its entry");
		}
		_ => assert!(false, "[H04.dict] the literal is a dict"),
	}
}
//@ harness scalar_literal property=H10,H01
//@ claim: a literal denotes the value the lexer read: nil, every bool, int, float (bit for bit) and byte, strings byte for byte; a field name is its name as a string
//@ bound: strings of two bytes
//@ functions: Runtime::eval_literal
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)] #[kani::stub(symbol::Interner::resolve, names)]
fn scalar_literal() {
	let (b, i, f, y, s): (bool, i64, f64, u8, [u8; 2]) = (kani::any(), kani::any(), kani::any(), kani::any(), kani::any());
	let mut rt = rt();
	macro_rules! lit { ($e:expr) => {{ node!(l, $e); ManuallyDrop::new(rt.eval_literal(st(l), ppos())) }} }
	assert!(matches!(&*lit!(Literal::Nil), Ok(Flow::Regular(Value::Nil))), "[H10.literal] nil");
	assert!(matches!(&*lit!(Literal::Bool(b)), Ok(Flow::Regular(Value::Bool(v))) if *v == b), "[H10.literal] a bool literal is that bool");
	assert!(matches!(&*lit!(Literal::Int(i)), Ok(Flow::Regular(Value::Int(v))) if *v == i), "[H10.literal] an int literal is that int");
	assert!(matches!(&*lit!(Literal::Float(f)), Ok(Flow::Regular(Value::Float(v))) if v.0.to_bits() == f.to_bits()), "[H10.literal] a float literal is that float");
	assert!(matches!(&*lit!(Literal::Byte(y)), Ok(Flow::Regular(Value::Byte(v))) if *v == y), "[H10.literal] a byte literal is that byte");
	assert!(matches!(&*lit!(Literal::String(Box::new(s))), Ok(Flow::Regular(Value::String(v))) if v.len() == 2 && v.as_bytes()[0] == s[0] && v.as_bytes()[1] == s[1]), "[H10.literal] a string literal is that string, byte for byte");
	let x = ManuallyDrop::new(rt.eval_literal(of!(IDENT: Literal), ppos()));
	assert!(matches!(&*x, Ok(Flow::Regular(Value::String(v))) if v.len() == 2 && v.as_bytes()[0] == b'v'), "[H10.literal] a field name is its name");
	let x = ManuallyDrop::new(rt.eval_literal(of!(EMPTY: Literal), ppos()));
	assert!(matches!(&*x, Ok(Flow::Regular(Value::Dict(v))) if v.borrow().len() == 0), "[H03.dict] an empty dict has no entries");
}
