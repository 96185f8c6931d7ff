// Shared vocabulary of the contracts on src/runtime/mod.rs.
//
// `stub_eval_expr` is the contract of `Runtime::eval_expr` as its callers see it: it may
// produce any outcome (a value of any type, a panic, a return, a break), and evaluating an
// expression is an observable event, logged in LOG.  Leaf expressions are `Identifier`
// nodes whose slot number is the leaf's id; OUT[id] chooses its outcome.
use super::*;
use crate::runtime::panic as pk;

pub const ERR: u8 = 20;
pub const BRK: u8 = 21;
pub const RET: u8 = 22;

pub fn sym() -> Symbol { Symbol::default() }
pub fn pos() -> SourcePos { SourcePos { line: 1, column: 1, path: sym() } }
pub fn ppos() -> program::SourcePos { program::SourcePos { line: 1, column: 1, path: sym() } }
/// A source position that identifies leaf `k` (line number k).
pub fn lpos(k: u32) -> SourcePos { SourcePos { line: k, column: 7, path: sym() } }
pub fn plpos(k: u32) -> program::SourcePos { program::SourcePos { line: k, column: 7, path: sym() } }

pub fn rt() -> std::mem::ManuallyDrop<Runtime> {
	std::mem::ManuallyDrop::new(Runtime {
		stack: Stack::new(100), arguments: Vec::new(), std: Value::Nil,
		interner: symbol::Interner::new(), modules: HashMap::new(), args: Value::Nil,
	})
}

pub struct Nop;
impl NativeFun for Nop {
	fn name(&self) -> &'static str { "nop" }
	fn call(&self, _: CallContext) -> Result<Value, Panic> { Ok(Value::Nil) }
}

/// An arbitrary value of the given type (numbers, bools and bytes: every value; heap types:
/// one representative, as the code under contract only dispatches on their type).
pub fn val(kind: u8) -> Value {
	match kind {
		0 => Value::Nil,
		1 => Value::Bool(kani::any()),
		2 => Value::Int(kani::any()),
		3 => Value::Float(Float(kani::any())),
		4 => Value::Byte(kani::any()),
		5 => Value::from(&b"a"[..]),
		6 => Value::Array(Array::new(Vec::new())),
		7 => Value::Dict(Dict::new(HashMap::new())),
		8 => Value::from(Nop),
		_ => Value::Error(Error::new("a".into(), Value::Nil)),
	}
}
pub fn kind(v: &Value) -> u8 {
	match v {
		Value::Nil => 0, Value::Bool(_) => 1, Value::Int(_) => 2, Value::Float(_) => 3, Value::Byte(_) => 4,
		Value::String(_) => 5, Value::Array(_) => 6, Value::Dict(_) => 7, Value::Function(_) => 8, Value::Error(_) => 9,
	}
}

pub static mut LOG: [u32; 16] = [0; 16];
pub static mut N: usize = 0;
/// Outcome of each leaf.
pub static mut OUT: [u8; 8] = [0; 8];
/// Scalar payload of each leaf's value (used when SCALAR is set for it).
pub static mut INT: [i64; 8] = [0; 8];
pub static mut BOOL: [bool; 8] = [false; 8];
pub static mut FLT: [f64; 8] = [0.0; 8];

pub fn leaf_val(k: u32, o: u8) -> Value {
	unsafe {
		match o {
			1 => Value::Bool(BOOL[k as usize]),
			2 => Value::Int(INT[k as usize]),
			3 => Value::Float(Float(FLT[k as usize])),
			o => val(o),
		}
	}
}
pub fn reset() { unsafe { N = 0; } }
pub fn fresh() {
	unsafe {
		INT = [kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any()];
		BOOL = [kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any()];
		FLT = [kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any(), kani::any()];
	}
}
pub fn log(k: u32) { unsafe { LOG[N] = k; N += 1; } }

pub fn stub_eval_expr(_rt: &mut Runtime, expr: &'static program::Expr) -> Result<(Flow, SourcePos, Value), Panic> {
	let k = match expr { program::Expr::Identifier { slot_ix, .. } => slot_ix.0, _ => panic!("MODEL: leaf expected") };
	log(k);
	match unsafe { OUT[k as usize] } {
		ERR => Err(Panic::assertion_failed(lpos(k))),
		BRK => Ok((Flow::Break, lpos(k), Value::Nil)),
		RET => Ok((Flow::Return(Value::Int(1000 + k as i64)), lpos(k), Value::Nil)),
		o => Ok((Flow::Regular(leaf_val(k, o)), lpos(k), Value::Nil)),
	}
}
pub fn stub_cmd(_rt: &mut Runtime, _block: &'static program::CommandBlock, _pos: SourcePos) -> Result<Value, Panic> {
	panic!("MODEL: command blocks are under their own contracts")
}

/// View a local as `'static` (the callee keeps no reference beyond the harness).
pub fn st<T: ?Sized>(x: &T) -> &'static T { unsafe { &*(x as *const T) } }
macro_rules! node { ($name:ident, $e:expr) => { let $name = std::mem::ManuallyDrop::new($e); let $name = &*$name; } }
pub fn idn(k: u32) -> program::Expr { program::Expr::Identifier { slot_ix: program::mem::SlotIx(k), pos: plpos(k) } }

// Program nodes as constants.  The compiler lays the node out and the verifier sees its bytes
// in a plain buffer: the node types are unions nested so deeply that building one at run time
// costs the symbolic executor minutes, while matching on constant bytes is free.
use std::mem::{MaybeUninit, ManuallyDrop, size_of};
pub struct K<T>(pub T);
unsafe impl<T> Sync for K<T> {}
#[repr(C)] pub union Bytes<T, const N: usize> { a: ManuallyDrop<T>, b: [MaybeUninit<u64>; N] }
pub const fn raw<T, const N: usize>(t: T) -> K<[MaybeUninit<u64>; N]> { unsafe { K(Bytes { a: ManuallyDrop::new(t) }.b) } }
pub const fn cook<T: 'static, const N: usize>(k: &'static K<[MaybeUninit<u64>; N]>) -> &'static T { unsafe { &*(k as *const _ as *const T) } }
/// `ast!(NAME: Type = node)`: a constant node; `of!(NAME: Type)`: a reference to it.
macro_rules! ast { ($($n:ident : $t:ty = $e:expr;)*) => { $(static $n: K<[MaybeUninit<u64>; size_of::<$t>() / 8]> = raw::<$t, { size_of::<$t>() / 8 }>($e);)* } }
macro_rules! of { ($n:ident : $t:ty) => { cook::<$t, { size_of::<$t>() / 8 }>(&$n) } }
pub const fn cbx<T: 'static, const N: usize>(k: &'static K<[MaybeUninit<u64>; N]>) -> Box<T> { unsafe { std::mem::transmute::<&'static T, Box<T>>(cook(k)) } }
pub const fn cbxs<T: 'static, const N: usize>(k: &'static K<[MaybeUninit<u64>; N]>, n: usize) -> Box<[T]> { unsafe { std::mem::transmute::<&'static [T], Box<[T]>>(std::slice::from_raw_parts(k as *const _ as *const T, n)) } }
pub const CSYM: Symbol = unsafe { std::mem::transmute::<u32, Symbol>(0) };
pub const fn csym(k: u32) -> Symbol { unsafe { std::mem::transmute::<u32, Symbol>(k) } }
pub const fn cpos(k: u32) -> program::SourcePos { program::SourcePos { line: k, column: 7, path: CSYM } }
pub const fn cid(k: u32) -> program::Expr { program::Expr::Identifier { slot_ix: program::mem::SlotIx(k), pos: cpos(k) } }
pub const fn cslot(k: u32) -> program::mem::SlotIx { program::mem::SlotIx(k) }
pub const fn cempty() -> program::Block { program::Block(unsafe { std::mem::transmute::<&'static [program::Statement], Box<[program::Statement]>>(&[]) }) }
ast! { X1: program::Expr = cid(1); X2: program::Expr = cid(2); X3: program::Expr = cid(3); }
pub fn x1() -> &'static program::Expr { of!(X1: program::Expr) }
pub fn x2() -> &'static program::Expr { of!(X2: program::Expr) }
