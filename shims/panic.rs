// Stand-in for src/runtime/panic.rs when the verifier compiles hush.
//
// ASSUMED CONTRACT of the real file: each constructor records which panic it is, the
// offending value and the position, and nothing else; the rest of the file is message
// formatting.  The stand-in keeps the kind, the type of the offending value, an extra
// number and the position in a flat struct, which keeps the verification conditions small.
use crate::{fmt::Display, io::FileDescriptor, symbol::{self, Symbol}};
use super::{Value, SourcePos};
use std::{borrow::Cow, ffi::OsString};

#[derive(Debug)]
pub struct Panic { pub kind: u32, pub ty: u32, pub a: u32, pub pos: SourcePos }

pub const STACK_OVERFLOW: u32 = 1;
pub const INTEGER_OVERFLOW: u32 = 2;
pub const DIVISION_BY_ZERO: u32 = 3;
pub const INDEX: u32 = 4;
pub const EMPTY: u32 = 5;
pub const INVALID_CALL: u32 = 6;
pub const INVALID_ARGS: u32 = 7;
pub const INVALID_CONDITION: u32 = 8;
pub const TYPE_ERROR: u32 = 9;
pub const VALUE_ERROR: u32 = 10;
pub const INVALID_COMMAND_ARGS: u32 = 11;
pub const IO: u32 = 12;
pub const UNSUPPORTED_FD: u32 = 13;
pub const INVALID_PATTERN: u32 = 14;
pub const READONLY: u32 = 15;
pub const IMPORT_FAILED: u32 = 16;
pub const INVALID_JOIN: u32 = 17;
pub const USER: u32 = 18;
pub const ASSERTION: u32 = 19;

fn mk(kind: u32, ty: u32, a: u32, pos: SourcePos) -> Panic { Panic { kind, ty, a, pos } }
fn ty(v: Value) -> u32 {
	let t = match &v {
		Value::Nil => 0, Value::Bool(_) => 1, Value::Int(_) => 2, Value::Float(_) => 3, Value::Byte(_) => 4,
		Value::String(_) => 5, Value::Array(_) => 6, Value::Dict(_) => 7, Value::Function(_) => 8, Value::Error(_) => 9,
	};
	std::mem::forget(v);
	t
}

impl Panic {
	pub fn stack_overflow(pos: SourcePos) -> Self { mk(STACK_OVERFLOW, 99, 0, pos) }
	pub fn assertion_failed(pos: SourcePos) -> Self { mk(ASSERTION, 99, 0, pos) }
	pub fn integer_overflow(pos: SourcePos) -> Self { mk(INTEGER_OVERFLOW, 99, 0, pos) }
	pub fn division_by_zero(pos: SourcePos) -> Self { mk(DIVISION_BY_ZERO, 99, 0, pos) }
	pub fn index_out_of_bounds(index: Value, pos: SourcePos) -> Self { mk(INDEX, ty(index), 0, pos) }
	pub fn empty_collection(pos: SourcePos) -> Self { mk(EMPTY, 99, 0, pos) }
	pub fn invalid_call(function: Value, pos: SourcePos) -> Self { mk(INVALID_CALL, ty(function), 0, pos) }
	pub fn invalid_args(supplied: u32, expected: u32, pos: SourcePos) -> Self { mk(INVALID_ARGS, supplied, expected, pos) }
	pub fn invalid_condition(value: Value, pos: SourcePos) -> Self { mk(INVALID_CONDITION, ty(value), 0, pos) }
	pub fn type_error<E>(value: Value, expected: E, pos: SourcePos) -> Self where E: Into<Cow<'static, str>> { std::mem::forget(expected); mk(TYPE_ERROR, ty(value), 0, pos) }
	pub fn value_error<E>(value: Value, message: E, pos: SourcePos) -> Self where E: Into<Cow<'static, str>> { std::mem::forget(message); mk(VALUE_ERROR, ty(value), 0, pos) }
	pub fn invalid_command_args(object: &'static str, items: u32, pos: SourcePos) -> Self { let _ = object; mk(INVALID_COMMAND_ARGS, 99, items, pos) }
	pub fn io(error: kstd::io::Error, pos: SourcePos) -> Self { std::mem::forget(error); mk(IO, 99, 0, pos) }
	pub fn unsupported_fd(fd: FileDescriptor, pos: SourcePos) -> Self { std::mem::forget(fd); mk(UNSUPPORTED_FD, 99, 0, pos) }
	pub fn invalid_pattern(pattern: OsString, pos: SourcePos) -> Self { std::mem::forget(pattern); mk(INVALID_PATTERN, 99, 0, pos) }
	pub fn assign_to_readonly_field(field: Value, pos: SourcePos) -> Self { mk(READONLY, ty(field), 0, pos) }
	pub fn import_failed(path: Symbol, pos: SourcePos) -> Self { let _ = path; mk(IMPORT_FAILED, 99, 0, pos) }
	pub fn invalid_join(pos: SourcePos) -> Self { mk(INVALID_JOIN, 99, 0, pos) }
	pub fn user(context: Value, pos: SourcePos) -> Self { mk(USER, ty(context), 0, pos) }
}

impl<'a> Display<'a> for Panic {
	type Context = &'a symbol::Interner;
	fn fmt(&self, _: &mut std::fmt::Formatter, _: Self::Context) -> std::fmt::Result { Ok(()) }
}
impl std::fmt::Display for Panic { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Panic { }
