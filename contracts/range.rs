//@ module: src/runtime/lib/range.rs
// H15: ranges, step by step. H01 is not involved: the step saturates by its contract.
use super::*;
use crate::runtime::Runtime;
include!("_mkrt.rs");

fn get(v: &Value, k: &str) -> Option<Value> {
	match v {
		Value::Dict(d) => {
			let key = std::mem::ManuallyDrop::new(Value::from(k));
			let b = d.borrow();
			let mut i = 0;
			while i < b.entries.len() { if matches!((&b.entries[i].0, &*key), (Value::String(x), Value::String(y)) if x.as_bytes() == y.as_bytes()) { return Some(b.entries[i].1.copy()); } i += 1; }
			None
		}
		_ => None,
	}
}
fn step(f: &dyn NativeFun, rt: &mut Runtime) -> std::mem::ManuallyDrop<Value> {
	match f.call(CallContext { runtime: rt, obj: Value::Nil, args_start: 0, pos: mkpos() }) {
		Ok(v) => std::mem::ManuallyDrop::new(v),
		Err(_) => { assert!(false, "[H15.range] the iterator does not panic"); std::mem::ManuallyDrop::new(Value::Nil) }
	}
}

//@ harness range_int property=H15
//@ claim: one step of an int range from every state (from, to, step: all i64, step not 0): finishes exactly when the bound is reached, otherwise yields the current value and advances by exactly the step (or to the limit of the type, past the bound); a finished range stays finished
//@ functions: RangeImpl::call, i64::advance
#[kani::proof] #[kani::unwind(10)]
fn range_int() {
	let (a, to, st): (i64, i64, i64) = (kani::any(), kani::any(), kani::any());
	kani::assume(st != 0);
	let r = std::mem::ManuallyDrop::new(RangeImpl { from: GcCell::new(a), to, step: st });
	let mut rt = mkrt();
	let x = step(&*r, &mut rt);
	let done = if st > 0 { a >= to } else { a <= to };
	assert!(matches!(get(&x, "finished"), Some(Value::Bool(b)) if b == done), "[H15.range] finished exactly when the bound is reached");
	let next = *r.from.borrow();
	if done {
		assert!(get(&x, "value").is_none() && next == a, "[H15.range] a finished range stays finished");
	} else {
		assert!(matches!(get(&x, "value"), Some(Value::Int(v)) if v == a), "[H15.range] yields the current value");
		let exact = a as i128 + st as i128;
		assert!(if exact >= i64::MIN as i128 && exact <= i64::MAX as i128 { next as i128 == exact } else if st > 0 { next >= to } else { next <= to }, "[H15.range] advances by exactly the step, or ends at the limit of the type");
		// progress: the distance to the bound shrinks, so every range ends
		assert!(if st > 0 { next > a } else { next < a }, "[H15.range] every step makes progress");
	}
}
//@ harness range_float property=H15
//@ claim: one step of a float range from every non-NaN state (step not 0): finishes exactly when the bound is reached, otherwise yields the current value and advances by from + step
//@ functions: RangeImpl::call, Float::advance
#[kani::proof] #[kani::unwind(10)]
fn range_float() {
	let (a, to, st): (f64, f64, f64) = (kani::any(), kani::any(), kani::any());
	kani::assume(!a.is_nan() && !to.is_nan() && !st.is_nan() && st != 0.0);
	let r = std::mem::ManuallyDrop::new(RangeImpl { from: GcCell::new(Float(a)), to: Float(to), step: Float(st) });
	let mut rt = mkrt();
	let x = step(&*r, &mut rt);
	let done = if st > 0.0 { a >= to } else { a <= to };
	assert!(matches!(get(&x, "finished"), Some(Value::Bool(b)) if b == done), "[H15.range] finished exactly when the bound is reached");
	let next = r.from.borrow().0;
	if done { assert!(get(&x, "value").is_none() && next == a, "[H15.range] a finished range stays finished"); }
	else {
		assert!(matches!(get(&x, "value"), Some(Value::Float(v)) if v.0 == a), "[H15.range] yields the current value");
		let want = a + st;
		assert!(next == want || next.is_nan() && want.is_nan(), "[H15.range] advances by the step");
	}
}
fn num(k: u8, i: i64, f: f64) -> Value { match k { 0 => Value::Int(i), 1 => Value::Float(Float(f)), _ => Value::Nil } }
fn promote_case(k: [u8; 3]) {
	let is: [i64; 3] = kani::any();
	let fs: [f64; 3] = kani::any();
	let r = std::mem::ManuallyDrop::new(util::Numbers::promote([num(k[0], is[0], fs[0]), num(k[1], is[1], fs[1]), num(k[2], is[2], fs[2])]));
	let bad = k[0] == 2 || k[1] == 2 || k[2] == 2;
	match &*r {
		Err(v) => assert!(bad && matches!(v, Value::Nil), "[H15.promote] rejects exactly what is not a number"),
		Ok(util::Numbers::Ints(x)) => assert!(!bad && k[0] + k[1] + k[2] == 0 && x[0] == is[0] && x[1] == is[1] && x[2] == is[2], "[H15.promote] ints stay ints"),
		Ok(util::Numbers::Floats(x)) => {
			assert!(!bad && k[0] + k[1] + k[2] > 0, "[H15.promote] floats only when one was given");
			let mut i = 0;
			while i < 3 {
				let w = if k[i] == 0 { is[i] as f64 } else { fs[i] };
				assert!(x[i].0 == w || w.is_nan() && x[i].0.is_nan(), "[H15.promote] every number keeps its place and value");
				i += 1;
			}
		}
	}
}
//@ harness promote_int_int_int property=H15
//@ claim: range arguments (int, int, int): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_int_int_int() { promote_case([0, 0, 0]) }
//@ harness promote_float_int_int property=H15
//@ claim: range arguments (float, int, int): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_float_int_int() { promote_case([1, 0, 0]) }
//@ harness promote_int_float_int property=H15
//@ claim: range arguments (int, float, int): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_int_float_int() { promote_case([0, 1, 0]) }
//@ harness promote_int_int_float property=H15
//@ claim: range arguments (int, int, float): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_int_int_float() { promote_case([0, 0, 1]) }
//@ harness promote_float_float_int property=H15
//@ claim: range arguments (float, float, int): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_float_float_int() { promote_case([1, 1, 0]) }
//@ harness promote_float_int_float property=H15
//@ claim: range arguments (float, int, float): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_float_int_float() { promote_case([1, 0, 1]) }
//@ harness promote_int_float_float property=H15
//@ claim: range arguments (int, float, float): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_int_float_float() { promote_case([0, 1, 1]) }
//@ harness promote_float_float_float property=H15
//@ claim: range arguments (float, float, float): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_float_float_float() { promote_case([1, 1, 1]) }
//@ harness promote_nil_int_int property=H15
//@ claim: range arguments (nil, int, int): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_nil_int_int() { promote_case([2, 0, 0]) }
//@ harness promote_int_nil_float property=H15
//@ claim: range arguments (int, nil, float): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_int_nil_float() { promote_case([0, 2, 1]) }
//@ harness promote_float_float_nil property=H15
//@ claim: range arguments (float, float, nil): three ints stay ints, otherwise every int becomes the same number as a float and floats stay, in their places; what is not a number is rejected; for all values
//@ functions: Numbers::promote, Numbers::as_floats
//@ cbmc: --no-simplify
#[kani::proof] #[kani::unwind(5)]
fn promote_float_float_nil() { promote_case([1, 1, 2]) }
