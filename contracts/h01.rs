//@ module: src/runtime/mod.rs
// H01: arithmetic is exact or panics.
include!("_rt.rs");
use program::BinaryOp;

fn ops() -> [BinaryOp; 5] { [BinaryOp::Plus, BinaryOp::Minus, BinaryOp::Times, BinaryOp::Div, BinaryOp::Mod] }

/// The specification of int arithmetic, over mathematical integers (i128).
fn int_spec(op: u8, a: i64, b: i64) -> Option<i64> {
	let fits = |x: i128| if x >= i64::MIN as i128 && x <= i64::MAX as i128 { Some(x as i64) } else { None };
	match op {
		0 => fits(a as i128 + b as i128),
		1 => fits(a as i128 - b as i128),
		2 => fits(a as i128 * b as i128),
		3 => if b == 0 || (a == i64::MIN && b == -1) { None } else { Some(a / b) },
		_ => if b == 0 || (a == i64::MIN && b == -1) { None } else { Some(a % b) },
	}
}

fn int_case(op: u8) {
	let (l, r) = (x1(), x2());
	let mut rt = rt();
	fresh();
	unsafe { OUT[1] = 2; OUT[2] = 2; }
	node!(ops, ops());
	let x = rt.binary_op(st(l), st(&ops[op as usize]), st(r), &pos());
	let (a, b) = unsafe { (INT[1], INT[2]) };
	match (&x, int_spec(op, a, b)) {
		(Ok(Flow::Regular(Value::Int(v))), Some(s)) => assert!(*v == s, "[H01.int] the result is the exact integer result"),
		(Err(p), None) => assert!(p.kind == pk::INTEGER_OVERFLOW || p.kind == pk::DIVISION_BY_ZERO, "[H01.int] an unrepresentable result raises an arithmetic panic"),
		(Ok(_), _) => assert!(false, "[H01.int] an unrepresentable result is never returned"),
		(Err(_), Some(_)) => assert!(false, "[H01.int] a representable result raises no panic"),
	}
	kani::cover!(x.is_ok(), "representable results are reached");
	kani::cover!(x.is_err(), "unrepresentable results are reached");
	std::mem::forget(x);
}

//@ harness int_add property=H01
//@ claim: int + int is the exact sum or an arithmetic panic, for all 2^128 operand pairs
//@ functions: Runtime::binary_op, Runtime::arithmetic_op
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn int_add() { int_case(0) }
//@ harness int_sub property=H01
//@ claim: int - int is the exact difference or an arithmetic panic, for all operand pairs
//@ functions: Runtime::binary_op, Runtime::arithmetic_op
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn int_sub() { int_case(1) }
//@ harness int_mul property=H01
//@ claim: int * int is the exact product or an arithmetic panic, for all operand pairs
//@ functions: Runtime::binary_op, Runtime::arithmetic_op
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn int_mul() { int_case(2) }
/// `/` and `%`: which operands panic is decided over all 2^128 pairs; the value is compared
/// with the specification for small operands and for extreme ones (a 64-bit divider pair is
/// out of reach of the SAT back end).
fn div_decision(op: u8) {
	let (l, r) = (x1(), x2());
	let mut rt = rt();
	fresh();
	unsafe { OUT[1] = 2; OUT[2] = 2; }
	node!(ops, ops());
	let x = rt.binary_op(st(l), st(&ops[op as usize]), st(r), &pos());
	let (a, b) = unsafe { (INT[1], INT[2]) };
	let undefined = b == 0 || (a == i64::MIN && b == -1);
	match &x {
		Ok(Flow::Regular(Value::Int(_))) => assert!(!undefined, "[H01.div] division by zero or overflow never returns a value"),
		Ok(_) => assert!(false, "[H01.div] the result is an int"),
		Err(p) => assert!(undefined && (p.kind == pk::INTEGER_OVERFLOW || p.kind == pk::DIVISION_BY_ZERO), "[H01.div] panics exactly on a zero divisor or an unrepresentable quotient"),
	}
	kani::cover!(x.is_ok(), "defined divisions are reached");
	kani::cover!(x.is_err(), "undefined divisions are reached");
	std::mem::forget(x);
}
fn div_value(rt: &mut Runtime, op: u8, a: i64, b: i64) {
	let (l, r) = (x1(), x2());
	unsafe { OUT[1] = 2; OUT[2] = 2; INT[1] = a; INT[2] = b; N = 0; }
	node!(ops, ops());
	let x = rt.binary_op(st(l), st(&ops[op as usize]), st(r), &pos());
	match (&x, int_spec(op, a, b)) {
		(Ok(Flow::Regular(Value::Int(v))), Some(s)) => assert!(*v == s, "[H01.div] truncated quotient, remainder with the sign of the dividend"),
		(Err(_), None) => (),
		_ => assert!(false, "[H01.div] defined exactly when the divisor is not zero and the quotient fits"),
	}
	std::mem::forget(x);
}
fn div_values(op: u8) {
	let a: i8 = kani::any(); let b: i8 = kani::any();
	let mut rt = rt();
	div_value(&mut rt, op, a as i64, b as i64);
	const X: [i64; 8] = [i64::MIN, i64::MIN + 1, -7, -1, 2, 7, i64::MAX - 1, i64::MAX];
	let mut i = 0;
	while i < 8 {
		div_value(&mut rt, op, X[i], X[(i + 1) % 8]); div_value(&mut rt, op, X[i], X[(i + 3) % 8]); div_value(&mut rt, op, X[(i + 2) % 8], X[i]);
		i += 1;
	}
}
//@ harness int_div property=H01
//@ claim: int / int panics exactly on a zero divisor or MIN / -1, for all operand pairs
//@ functions: Runtime::binary_op, Runtime::arithmetic_op
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn int_div() { div_decision(3) }
//@ harness int_mod property=H01
//@ claim: int % int panics exactly on a zero divisor or MIN % -1, for all operand pairs
//@ functions: Runtime::binary_op, Runtime::arithmetic_op
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn int_mod() { div_decision(4) }
//@ harness int_div_value property=H01
//@ claim: int / int is the truncated quotient
//@ bound: all operand pairs in -128..=127 and 24 pairs of extreme operands
//@ functions: Runtime::binary_op, Runtime::arithmetic_op
#[kani::proof] #[kani::unwind(9)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn int_div_value() { div_values(3) }
//@ harness int_mod_value property=H01
//@ claim: int % int is the remainder with the sign of the dividend
//@ bound: all operand pairs in -128..=127 and 24 pairs of extreme operands
//@ functions: Runtime::binary_op, Runtime::arithmetic_op
#[kani::proof] #[kani::unwind(9)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn int_mod_value() { div_values(4) }

//@ harness float_ops property=H01
//@ claim: float op float is the IEEE-754 result for + and - (all operand pairs; NaN results compared as NaN), and never a panic
//@ functions: Runtime::binary_op, Runtime::arithmetic_op, Float operators
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn float_ops() {
	let (l, r) = (x1(), x2());
	let mut rt = rt();
	fresh();
	unsafe { OUT[1] = 3; OUT[2] = 3; }
	node!(ops, ops());
	let (a, b) = unsafe { (FLT[1], FLT[2]) };
	let mut op = 0u8;
	while op < 2 {
		reset();
		let x = rt.binary_op(st(l), st(&ops[op as usize]), st(r), &pos());
		let s = match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b };
		match &x {
			Ok(Flow::Regular(Value::Float(v))) => assert!(v.0.to_bits() == s.to_bits() || (v.0.is_nan() && s.is_nan()), "[H01.float] IEEE-754 result"),
			_ => assert!(false, "[H01.float] two floats give a float"),
		}
		std::mem::forget(x);
		op += 1;
	}
}

fn no_ord(_: &mut Runtime, _: Value, _: SourcePos, _: &'static BinaryOp, _: Value, _: SourcePos) -> Result<Value, Panic> { panic!("MODEL: arithmetic does not compare") }
//@ harness mixed property=H01
//@ claim: operand types other than int-int and float-float raise a type panic and are never converted: all five operators, all hundred pairs of types
//@ functions: Runtime::binary_op, Runtime::arithmetic_op
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)] #[kani::stub(Runtime::ord_op, no_ord)]
fn mixed() {
	let (l, r) = (x1(), x2());
	let mut rt = rt();
	fresh(); reset();
	unsafe { gc::EQ_CUT = true; gc::EQ_RESULT = kani::any(); }
	let (a, b, op): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
	kani::assume(a < 10 && b < 10 && op < 5 && !(a == 2 && b == 2) && !(a == 3 && b == 3));
	unsafe { OUT[1] = a; OUT[2] = b; }
	node!(op, match op { 0 => BinaryOp::Plus, 1 => BinaryOp::Minus, 2 => BinaryOp::Times, 3 => BinaryOp::Div, _ => BinaryOp::Mod });
	let x = std::mem::ManuallyDrop::new(rt.binary_op(st(l), st(op), st(r), &pos()));
	match &*x {
		Err(p) => assert!(p.kind == pk::TYPE_ERROR, "[H01.mixed] operands of different or non-numeric types raise a type panic"),
		Ok(_) => assert!(false, "[H01.mixed] operands of different or non-numeric types are never converted"),
	}
	kani::cover!(x.is_err(), "type panics are reached");
}

//@ harness neg property=H01
//@ claim: unary minus: exact negation or an overflow panic for ints, IEEE negation for floats, a type panic otherwise
//@ functions: Runtime::unary_op
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Runtime::eval_expr, stub_eval_expr)] #[kani::stub(Runtime::eval_command_block, stub_cmd)]
fn neg() {
	let l = x1();
	let mut rt = rt();
	fresh(); reset();
	let k: u8 = kani::any();
	kani::assume(k < 10);
	unsafe { OUT[1] = k; }
	let x = std::mem::ManuallyDrop::new(rt.unary_op(&program::UnaryOp::Minus, st(l)));
	let a = unsafe { INT[1] };
	let f = unsafe { FLT[1] };
	match &*x {
		Ok(Flow::Regular(Value::Int(v))) => assert!(k == 2 && *v as i128 == -(a as i128), "[H01.neg] exact negation"),
		Ok(Flow::Regular(Value::Float(v))) => assert!(k == 3 && (v.0 == -f || f.is_nan() && v.0.is_nan()), "[H01.neg] float negation"),
		Ok(_) => assert!(false, "[H01.neg] no other result"),
		Err(p) => assert!(if k == 2 { a == i64::MIN && p.kind == pk::INTEGER_OVERFLOW } else { k != 3 && p.kind == pk::TYPE_ERROR }, "[H01.neg] panics exactly on overflow or a wrong type"),
	}
	kani::cover!(x.is_ok(), "negations are reached");
}
