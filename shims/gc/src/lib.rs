//! Stand-in for the `gc` crate, used only when the verifier compiles hush.
//!
//! ASSUMED CONTRACT of the real crate that this stand-in expresses: `Gc<T>` is a shared
//! pointer to a heap value that stays alive while reachable; `Gc` compares, orders and
//! hashes by its pointee; `GcCell<T>` is a dynamically checked mutable cell whose
//! `borrow`/`borrow_mut` panic on conflicting borrows.  Here nothing is ever collected
//! (objects are leaked), which no hush program can observe.
#![feature(auto_traits)]
use std::{cell::{Cell, UnsafeCell}, cmp::Ordering, fmt::{self, Debug, Display}, hash::{Hash, Hasher}, ops::{Deref, DerefMut}};

#[cfg(feature = "derive")]
pub use gc_derive::{Finalize, Trace};

pub trait Finalize {}
impl<T: ?Sized> Finalize for T {}
pub unsafe auto trait Trace {}

#[macro_export]
macro_rules! unsafe_empty_trace { () => {}; }
#[macro_export]
macro_rules! custom_trace { ($this:ident, $body:expr) => {}; }

pub fn force_collect() {}
pub fn finalizer_safe() -> bool { true }

pub struct Gc<T: ?Sized + 'static>(&'static T);
impl<T> Gc<T> {
	pub fn new(value: T) -> Self { Gc(Box::leak(Box::new(value))) }
}
impl<T: ?Sized> Gc<T> {
	pub fn ptr_eq(this: &Gc<T>, other: &Gc<T>) -> bool { std::ptr::eq(this.0 as *const T as *const u8, other.0 as *const T as *const u8) }
}
impl<T: ?Sized> Clone for Gc<T> { fn clone(&self) -> Self { Gc(self.0) } }
impl<T: ?Sized> Deref for Gc<T> { type Target = T; fn deref(&self) -> &T { self.0 } }
impl<T: Default> Default for Gc<T> { fn default() -> Self { Gc::new(T::default()) } }
/// Set by contracts that take the equality of heap values at its contract: the comparison is
/// not unfolded and answers EQ_RESULT (which the contract leaves arbitrary).
pub static mut EQ_CUT: bool = false;
pub static mut EQ_RESULT: bool = false;
impl<T: ?Sized + PartialEq> PartialEq for Gc<T> { fn eq(&self, o: &Self) -> bool { if unsafe { EQ_CUT } { unsafe { EQ_RESULT } } else { **self == **o } } }
impl<T: ?Sized + Eq> Eq for Gc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Gc<T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { (**self).partial_cmp(&**o) } }
impl<T: ?Sized + Ord> Ord for Gc<T> { fn cmp(&self, o: &Self) -> Ordering { (**self).cmp(&**o) } }
impl<T: ?Sized + Hash> Hash for Gc<T> { fn hash<H: Hasher>(&self, s: &mut H) { (**self).hash(s) } }
impl<T: ?Sized + Debug> Debug for Gc<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + Display> Display for Gc<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (**self).fmt(f) } }
impl<T> From<T> for Gc<T> { fn from(t: T) -> Self { Gc::new(t) } }

/// Borrow state: -1 mutably borrowed, 0 free, n>0 shared borrows.
pub struct GcCell<T: ?Sized> { state: Cell<isize>, value: UnsafeCell<T> }
pub struct GcCellRef<'a, T: ?Sized> { state: &'a Cell<isize>, value: &'a T }
pub struct GcCellRefMut<'a, T: ?Sized, U: ?Sized = T> { state: &'a Cell<isize>, value: &'a mut T, marker: std::marker::PhantomData<*const U> }

impl<T> GcCell<T> {
	pub fn new(value: T) -> Self { GcCell { state: Cell::new(0), value: UnsafeCell::new(value) } }
	pub fn into_inner(self) -> T { self.value.into_inner() }
}
#[derive(Debug)]
pub struct BorrowError;
#[derive(Debug)]
pub struct BorrowMutError;
impl<T: ?Sized> GcCell<T> {
	pub fn borrow(&self) -> GcCellRef<'_, T> {
		if self.state.get() < 0 { panic!("GcCell<T> already mutably borrowed"); }
		self.state.set(self.state.get() + 1);
		GcCellRef { state: &self.state, value: unsafe { &*self.value.get() } }
	}
	pub fn borrow_mut(&self) -> GcCellRefMut<'_, T> {
		if self.state.get() != 0 { panic!("GcCell<T> already borrowed"); }
		self.state.set(-1);
		GcCellRefMut { state: &self.state, value: unsafe { &mut *self.value.get() }, marker: std::marker::PhantomData }
	}
	pub fn try_borrow(&self) -> Result<GcCellRef<'_, T>, BorrowError> {
		if self.state.get() < 0 { Err(BorrowError) } else { Ok(self.borrow()) }
	}
	pub fn try_borrow_mut(&self) -> Result<GcCellRefMut<'_, T>, BorrowMutError> {
		if self.state.get() != 0 { Err(BorrowMutError) } else { Ok(self.borrow_mut()) }
	}
}
impl<'a, T: ?Sized> Deref for GcCellRef<'a, T> { type Target = T; fn deref(&self) -> &T { self.value } }
impl<'a, T: ?Sized> Drop for GcCellRef<'a, T> { fn drop(&mut self) { self.state.set(self.state.get() - 1) } }
impl<'a, T: ?Sized, U: ?Sized> Deref for GcCellRefMut<'a, T, U> { type Target = T; fn deref(&self) -> &T { self.value } }
impl<'a, T: ?Sized, U: ?Sized> DerefMut for GcCellRefMut<'a, T, U> { fn deref_mut(&mut self) -> &mut T { self.value } }
impl<'a, T: ?Sized, U: ?Sized> Drop for GcCellRefMut<'a, T, U> { fn drop(&mut self) { self.state.set(0) } }
impl<T: Default> Default for GcCell<T> { fn default() -> Self { GcCell::new(T::default()) } }
impl<T: Clone> Clone for GcCell<T> { fn clone(&self) -> Self { GcCell::new(self.borrow().clone()) } }
impl<T: ?Sized + PartialEq> PartialEq for GcCell<T> { fn eq(&self, o: &Self) -> bool { *self.borrow() == *o.borrow() } }
impl<T: ?Sized + Eq> Eq for GcCell<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for GcCell<T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { (*self.borrow()).partial_cmp(&*o.borrow()) } }
impl<T: ?Sized + Ord> Ord for GcCell<T> { fn cmp(&self, o: &Self) -> Ordering { (*self.borrow()).cmp(&*o.borrow()) } }
impl<T: ?Sized + Debug> Debug for GcCell<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (*self.borrow()).fmt(f) } }
impl<'a, T: ?Sized + Debug> Debug for GcCellRef<'a, T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (**self).fmt(f) } }
