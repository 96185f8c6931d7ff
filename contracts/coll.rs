//@ module: src/runtime/value/mod.rs
// H03: the collections. H02: equality, ordering and hashing of values.
use super::*;
use std::{cmp::Ordering, hash::{Hash, Hasher}};

fn arr(n: usize, v: &[i64; 3]) -> Array {
	let mut a = Vec::with_capacity(3);
	let mut i = 0;
	while i < n { a.push(Value::Int(v[i])); i += 1; }
	Array::new(a)
}
fn int(v: &Value) -> Option<i64> { match v { Value::Int(i) => Some(*i), _ => None } }
fn elem(a: &Array, i: usize) -> Option<i64> { int(&a.borrow()[i]) }

fn index_case(n: usize) {
	let v: [i64; 3] = kani::any();
	let a = std::mem::ManuallyDrop::new(arr(n, &v));
	let ix: i64 = kani::any();
	let x = std::mem::ManuallyDrop::new(a.index(ix));
	match &*x {
		Ok(y) => assert!(ix >= 0 && ix < n as i64 && int(y) == Some(v[ix as usize]), "[H03.index] exactly the element asked for"),
		Err(_) => assert!(ix < 0 || ix >= n as i64, "[H03.index] fails only outside the array"),
	}
	assert!(a.len() == n as i64, "[H03.len] len counts the elements");
	let w: i64 = kani::any();
	let b = std::mem::ManuallyDrop::new(a.copy());
	let r = b.set(ix, Value::Int(w));
	assert!(r.is_ok() == (ix >= 0 && ix < n as i64), "[H03.set] succeeds exactly inside the array");
	assert!(a.len() == n as i64, "[H03.set] the length does not change");
	let mut i = 0;
	while i < n {
		assert!(elem(&a, i) == Some(if r.is_ok() && i as i64 == ix { w } else { v[i] }), "[H03.set] the addressed element and nothing else changes, seen through every reference");
		i += 1;
	}
}
//@ harness array_index property=H03
//@ claim: Array::index, set and len for every i64 index: the addressed element and nothing else, seen through every copy of the reference
//@ bound: arrays of 0, 1 and 3 elements
//@ functions: Array::index, Array::set, Array::len, Array::copy
#[kani::proof] #[kani::unwind(6)]
fn array_index() { index_case(0); index_case(1); index_case(3); }

//@ harness array_push_pop property=H03
//@ claim: push adds one element at the end; pop removes and returns the last one, and fails exactly on an empty array
//@ bound: arrays of up to 3 elements
//@ functions: Array::push, Array::pop
#[kani::proof] #[kani::unwind(6)]
fn array_push_pop() {
	let v: [i64; 3] = kani::any();
	let mut n = 0;
	while n < 4 {
		let a = std::mem::ManuallyDrop::new(arr(n, &v));
		let mut b = std::mem::ManuallyDrop::new(a.copy());
		let x = std::mem::ManuallyDrop::new(b.pop());
		assert!(match &*x { Ok(y) => n > 0 && int(y) == Some(v[n - 1]), Err(_) => n == 0 }, "[H03.pop] the last element, or a failure when empty");
		let m = if n == 0 { 0 } else { n - 1 };
		assert!(a.len() == m as i64, "[H03.pop] one element less");
		let w: i64 = kani::any();
		b.push(Value::Int(w));
		assert!(a.len() == m as i64 + 1 && elem(&a, m) == Some(w), "[H03.push] one element at the end");
		let mut i = 0;
		while i < m { assert!(elem(&a, i) == Some(v[i]), "[H03.push] the other elements stay"); i += 1; }
		n += 1;
	}
}
//@ harness string_index property=H03
//@ claim: Str::index for every i64 index gives exactly that byte, and fails exactly outside the string; len counts the bytes
//@ bound: strings of 0, 1 and 3 bytes
//@ functions: Str::index, Str::len
#[kani::proof] #[kani::unwind(6)]
fn string_index() {
	let v: [u8; 3] = kani::any();
	let ix: i64 = kani::any();
	let ns = [0usize, 1, 3];
	let mut k = 0;
	while k < 3 {
		let n = ns[k];
		let s = std::mem::ManuallyDrop::new(Str::from(&v[..n]));
		match s.index(ix) {
			Ok(Value::Byte(b)) => assert!(ix >= 0 && ix < n as i64 && b == v[ix as usize], "[H03.string] exactly the byte asked for"),
			Ok(_) => assert!(false, "[H03.string] a byte"),
			Err(_) => assert!(ix < 0 || ix >= n as i64, "[H03.string] fails only outside the string"),
		}
		assert!(s.len() == n, "[H03.string] len counts the bytes");
		k += 1;
	}
}

struct Rec { n: usize, b: [u8; 32] }
impl Hasher for Rec {
	fn finish(&self) -> u64 { 0 }
	fn write(&mut self, x: &[u8]) { let mut i = 0; while i < x.len() { if self.n < 32 { self.b[self.n] = x[i]; } self.n += 1; i += 1; } }
}
fn hash_of(v: &Value) -> Rec { let mut r = Rec { n: 0, b: [0; 32] }; v.hash(&mut r); r }
fn same_hash(a: &Value, b: &Value) -> bool {
	let (x, y) = (hash_of(a), hash_of(b));
	if x.n != y.n { return false; }
	let mut i = 0;
	while i < 32 { if i < x.n && x.b[i] != y.b[i] { return false; } i += 1; }
	true
}
fn scalar(k: u8) -> Value {
	match k { 0 => Value::Nil, 1 => Value::Bool(kani::any()), 2 => Value::Int(kani::any()), 3 => Value::Float(Float(kani::any())), _ => Value::Byte(kani::any()) }
}
fn nan(v: &Value) -> bool { matches!(v, Value::Float(f) if f.0.is_nan()) }
/// Equality by the property statement.
fn spec_eq(a: &Value, b: &Value) -> bool {
	match (a, b) {
		(Value::Nil, Value::Nil) => true, (Value::Bool(x), Value::Bool(y)) => x == y, (Value::Int(x), Value::Int(y)) => x == y,
		(Value::Float(x), Value::Float(y)) => x.0 == y.0, (Value::Byte(x), Value::Byte(y)) => x == y, _ => false,
	}
}
//@ harness scalar_eq property=H02
//@ claim: == on nil, bools, ints, floats and chars: equal exactly when of the same type and the same value (0.0 = -0.0, NaN equals nothing), for all pairs
//@ functions: Value::eq, Float::eq
#[kani::proof] #[kani::unwind(6)]
fn scalar_eq() {
	let mut i = 0;
	while i < 5 {
		let mut j = 0;
		while j < 5 {
			let (a, b) = (std::mem::ManuallyDrop::new(scalar(i)), std::mem::ManuallyDrop::new(scalar(j)));
			assert!((*a == *b) == spec_eq(&a, &b), "[H02.eq] equal exactly when of the same type and value");
			assert!((*a != *b) == !spec_eq(&a, &b), "[H02.eq] != is the negation of ==");
			j += 1;
		}
		i += 1;
	}
}
//@ harness scalar_hash property=H02
//@ claim: equal scalars have equal hashes, so a dict finds a key through every equal key, for all pairs of values of the same type
//@ functions: Value::hash, Float::hash
#[kani::proof] #[kani::unwind(34)]
fn scalar_hash() {
	let mut i = 0;
	while i < 5 {
		let (a, b) = (std::mem::ManuallyDrop::new(scalar(i)), std::mem::ManuallyDrop::new(scalar(i)));
		if *a == *b { assert!(same_hash(&a, &b), "[H02.hash] equal values hash equally"); }
		i += 1;
	}
}
//@ harness scalar_cmp property=H02
//@ claim: ordering of ints, floats and chars: the order of the numbers, Equal exactly when ==, for all pairs of non-NaN values
//@ functions: Value::cmp, Value::partial_cmp, Float::cmp
#[kani::proof] #[kani::unwind(6)]
fn scalar_cmp() {
	let mut i = 2;
	while i < 5 {
		let (a, b) = (std::mem::ManuallyDrop::new(scalar(i)), std::mem::ManuallyDrop::new(scalar(i)));
		kani::assume(!nan(&a) && !nan(&b));
		let lt = match (&*a, &*b) { (Value::Int(x), Value::Int(y)) => x < y, (Value::Float(x), Value::Float(y)) => x.0 < y.0, (Value::Byte(x), Value::Byte(y)) => x < y, _ => false };
		let want = if spec_eq(&a, &b) { Ordering::Equal } else if lt { Ordering::Less } else { Ordering::Greater };
		assert!(a.cmp(&b) == want, "[H02.cmp] ordered by value");
		assert!(a.partial_cmp(&b) == Some(want), "[H02.cmp] the partial order is the order");
		i += 1;
	}
}
fn bytes(n: usize, v: &[u8; 2]) -> Value { Value::String(Str::from(&v[..n])) }
//@ harness string_cmp property=H02
//@ claim: strings: == and the order are bytewise lexicographic, equal strings hash equally
//@ bound: strings of up to 2 bytes, every byte
//@ functions: Str::eq, Str::cmp, Str::hash
#[kani::proof] #[kani::unwind(34)]
fn string_cmp() {
	let (v, w): ([u8; 2], [u8; 2]) = (kani::any(), kani::any());
	let mut n = 0;
	while n < 3 {
		let mut m = 0;
		while m < 3 {
			let (a, b) = (std::mem::ManuallyDrop::new(bytes(n, &v)), std::mem::ManuallyDrop::new(bytes(m, &w)));
			// lexicographic order, spelled out
			let mut want = Ordering::Equal;
			let mut i = 0;
			while i < 2 {
				if want == Ordering::Equal {
					want = if i >= n && i >= m { Ordering::Equal } else if i >= n { Ordering::Less } else if i >= m { Ordering::Greater } else if v[i] < w[i] { Ordering::Less } else if v[i] > w[i] { Ordering::Greater } else { Ordering::Equal };
				}
				i += 1;
			}
			assert!(a.cmp(&b) == want, "[H02.string] bytewise order");
			assert!((*a == *b) == (want == Ordering::Equal), "[H02.string] equal exactly when the bytes are");
			m += 1;
		}
		n += 1;
	}
}
