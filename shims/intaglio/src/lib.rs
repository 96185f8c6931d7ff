//! Stand-in for the `intaglio` interner, used only when the verifier compiles hush.
//!
//! ASSUMED CONTRACT of the real crate: `intern` returns the existing symbol of an already
//! interned bytestring and a fresh one (the number of interned strings so far) otherwise;
//! `get` is its inverse.  Here: an association list searched linearly.
#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct Symbol(u32);
impl Symbol {
	pub const fn new(id: u32) -> Self { Symbol(id) }
	pub const fn id(self) -> u32 { self.0 }
}
#[derive(Debug)]
pub struct SymbolOverflowError;
pub mod bytes {
	use super::*;
	use std::borrow::Cow;
	#[derive(Debug, Default)]
	pub struct SymbolTable { vec: Vec<Box<[u8]>> }
	fn same(a: &[u8], b: &[u8]) -> bool {
		if a.len() != b.len() { return false; }
		let mut i = 0;
		while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
		true
	}
	impl SymbolTable {
		pub fn new() -> Self { SymbolTable { vec: Vec::new() } }
		pub fn len(&self) -> usize { self.vec.len() }
		pub fn is_empty(&self) -> bool { self.vec.is_empty() }
		pub fn get(&self, id: Symbol) -> Option<&[u8]> { self.vec.get(id.0 as usize).map(|b| &**b) }
		pub fn intern<T: Into<Cow<'static, [u8]>>>(&mut self, contents: T) -> Result<Symbol, SymbolOverflowError> {
			let contents = contents.into();
			if let Some(s) = self.check_interned(&contents) { return Ok(s); }
			let id = self.vec.len() as u32;
			self.vec.push(contents.into_owned().into_boxed_slice());
			Ok(Symbol(id))
		}
		pub fn check_interned(&self, contents: &[u8]) -> Option<Symbol> {
			let mut i = 0;
			while i < self.vec.len() {
				if same(&self.vec[i], contents) { return Some(Symbol(i as u32)); }
				i += 1;
			}
			None
		}
	}
}
