//@ module: src/runtime/mem.rs
// H06, H08: the value stack.  A slot holds a value or a cell shared with closures; the state
// below is any stack of three slots over two shared cells.
use super::*;
use std::mem::ManuallyDrop;

struct S { st: ManuallyDrop<Stack>, a: Gc<GcCell<Value>>, b: Gc<GcCell<Value>>, k: [u8; 3], v: [i64; 3], ca: i64, cb: i64 }
/// Slot i holds v[i] (k[i] = 0), the cell a (1) or the cell b (2).
fn any_stack() -> S {
	let (ca, cb): (i64, i64) = (kani::any(), kani::any());
	let a = Gc::new(GcCell::new(Value::Int(ca)));
	let b = Gc::new(GcCell::new(Value::Int(cb)));
	let k: [u8; 3] = kani::any();
	let v: [i64; 3] = kani::any();
	let mut st = ManuallyDrop::new(Stack { slots: Vec::with_capacity(8), max_size: kani::any() });
	let mut i = 0;
	while i < 3 {
		kani::assume(k[i] < 3);
		st.slots.push(match k[i] { 0 => Slot::Regular(Value::Int(v[i])), 1 => Slot::Closed(a.clone()), _ => Slot::Closed(b.clone()) });
		i += 1;
	}
	S { st, a, b, k, v, ca, cb }
}
impl S {
	/// What the slot at offset k from the top holds before the operation.
	fn old(&self, k: usize) -> i64 { let i = 2 - k; match self.k[i] { 0 => self.v[i], 1 => self.ca, _ => self.cb } }
	fn now(&self, k: usize) -> i64 { int(self.st.fetch(ix(k))) }
}
fn ix(k: usize) -> SlotIx { SlotIx(k as u32) }
fn int(v: Value) -> i64 { match &v { Value::Int(n) => *n, _ => { assert!(false, "[H06.stack] a slot keeps its value"); 0 } } }
fn cell(c: &Gc<GcCell<Value>>) -> i64 { match &*c.borrow() { Value::Int(n) => *n, _ => { assert!(false, "[H08.cell] a cell keeps its value"); 0 } } }
fn off() -> usize { let k: usize = kani::any(); kani::assume(k < 3); k }

//@ harness stack_fetch_store property=H06,H08
//@ claim: fetch gives the value of the slot counted from the top; store changes that slot, and with it every slot and closure sharing its cell, and nothing else
//@ bound: stacks of three slots over two shared cells; any slot, any contents
//@ functions: Stack::fetch, Stack::store, Slot::fetch, Slot::store
#[kani::proof] #[kani::unwind(5)]
fn stack_fetch_store() {
	let mut s = any_stack();
	let (k, j, w) = (off(), off(), kani::any());
	assert!(s.now(j) == s.old(j), "[H06.stack] fetch gives what the slot holds");
	s.st.store(ix(k), Value::Int(w));
	let (sk, sj) = (s.k[2 - k], s.k[2 - j]);
	let shares = k == j || sk != 0 && sk == sj;
	let (o, n) = (s.old(j), s.now(j));
	if shares { assert!(n == w, "[H08.shared] a store is seen by every slot sharing the cell"); }
	else { assert!(n == o, "[H06.stack] a store changes no other slot"); }
	assert!(cell(&s.a) == if sk == 1 { w } else { s.ca } && cell(&s.b) == if sk == 2 { w } else { s.cb }, "[H08.shared] a store to a captured variable is seen by the closures sharing it, and no others");
	assert!(s.st.len() == 3, "[H06.stack] the stack keeps its size");
	kani::cover!(shares && k != j, "sharing is reached");
}

//@ harness stack_capture property=H08
//@ claim: capture gives the one cell of the slot: same cell at each capture, holding the slot's value; afterwards slot and cell are one variable; other slots keep their values and their cells
//@ bound: stacks of three slots over two shared cells; any slot, any contents
//@ functions: Stack::capture, Slot::capture
#[kani::proof] #[kani::unwind(5)]
fn stack_capture() {
	let mut s = any_stack();
	let (k, j, w): (usize, usize, i64) = (off(), off(), kani::any());
	let sk = s.k[2 - k];
	let c = s.st.capture(ix(k));
	assert!(cell(&c) == s.old(k), "[H08.capture] the cell holds the value of the variable");
	assert!(sk != 1 || Gc::ptr_eq(&c, &s.a), "[H08.capture] a captured variable keeps its cell");
	assert!(sk != 2 || Gc::ptr_eq(&c, &s.b), "[H08.capture] a captured variable keeps its cell");
	assert!(sk != 0 || !Gc::ptr_eq(&c, &s.a) && !Gc::ptr_eq(&c, &s.b), "[H08.capture] distinct variables have distinct cells");
	assert!(s.now(j) == s.old(j), "[H08.capture] capturing changes no value");
	let d = s.st.capture(ix(k));
	assert!(Gc::ptr_eq(&c, &d), "[H08.capture] every closure capturing a variable shares one cell");
	// one variable from now on
	if kani::any() { *c.borrow_mut() = Value::Int(w); } else { s.st.store(ix(k), Value::Int(w)); }
	assert!(cell(&c) == w && s.now(k) == w, "[H08.shared] the variable and the captured cell are one");
	let shares = k == j || sk != 0 && s.k[2 - j] == sk;
	assert!(s.now(j) == if shares { w } else { s.old(j) }, "[H08.shared] and no other variable changes");
}

//@ harness stack_place property=H08
//@ claim: place makes the slot the captured variable: it shares the cell from then on; the cell the slot had before and every other slot are unchanged
//@ bound: stacks of three slots over two shared cells; any slot, any contents
//@ functions: Stack::place, Slot::place
#[kani::proof] #[kani::unwind(5)]
fn stack_place() {
	let mut s = any_stack();
	let (k, j, w, u): (usize, usize, i64, i64) = (off(), off(), kani::any(), kani::any());
	let c = Gc::new(GcCell::new(Value::Int(w)));
	s.st.place(ix(k), c.clone());
	assert!(s.now(k) == w && (j == k || s.now(j) == s.old(j)), "[H08.place] the slot is the captured variable, the others keep their values");
	assert!(cell(&s.a) == s.ca && cell(&s.b) == s.cb, "[H08.place] no cell is written");
	s.st.store(ix(k), Value::Int(u));
	assert!(cell(&c) == u && (j == k || s.now(j) == s.old(j)), "[H08.shared] a store to the slot is a store to the captured variable");
	assert!(cell(&s.a) == s.ca && cell(&s.b) == s.cb, "[H08.place] the former cell of the slot is detached");
}

//@ harness stack_overflow property=H06
//@ claim: a frame that does not fit below the maximum size is refused as a stack overflow, and nothing changes
//@ bound: stacks of three slots; a frame of two slots under every maximum, frames of 4, 2^31 and 2^32-1 slots under a maximum of 6
//@ functions: Stack::extend
#[kani::proof] #[kani::unwind(5)]
fn stack_overflow() {
	let mut s = any_stack();
	let r = if kani::any() {
		kani::assume(s.st.max_size < 5);
		s.st.extend(SlotIx(2))
	} else {
		s.st.max_size = 6;
		let which: u8 = kani::any();
		if which == 0 { s.st.extend(SlotIx(4)) } else if which == 1 { s.st.extend(SlotIx(1 << 31)) } else { s.st.extend(SlotIx(u32::MAX)) }
	};
	let j = off();
	assert!(r.is_err(), "[H06.overflow] a frame that does not fit is a stack overflow");
	assert!(s.st.len() == 3 && s.now(j) == s.old(j), "[H06.overflow] a refused frame changes nothing");
}

//@ harness stack_extend property=H06,H08
//@ claim: a frame that fits: its slots are nil and shared with nothing, the old ones keep their values and cells; shrink undoes it exactly
//@ bound: stacks of three slots, frames of two slots; any maximum
//@ functions: Stack::extend, Stack::shrink, Stack::len
#[kani::proof] #[kani::unwind(5)]
fn stack_extend() {
	let mut s = any_stack();
	kani::assume(s.st.max_size >= 5);
	assert!(s.st.extend(SlotIx(2)).is_ok(), "[H06.overflow] a frame that fits is not a stack overflow");
	let j = off();
	assert!(s.st.len() == 5, "[H06.frame] the frame has the requested slots");
	assert!(matches!(s.st.slots[3], Slot::Regular(Value::Nil)) && matches!(s.st.slots[4], Slot::Regular(Value::Nil)), "[H08.frame] the slots of a new frame are nil and shared with nothing");
	assert!(int(s.st.fetch(ix(2 + j))) == s.old(j), "[H06.frame] the caller's slots keep their values");
	s.st.shrink(ix(2));
	assert!(s.st.len() == 3 && s.now(j) == s.old(j), "[H06.frame] leaving the frame restores the stack");
}
//@ harness stack_shrink property=H06
//@ claim: shrink removes exactly the topmost slots; the others keep their values
//@ bound: stacks of three slots
//@ functions: Stack::shrink
#[kani::proof] #[kani::unwind(5)]
fn stack_shrink() {
	let mut s = any_stack();
	let (n, j) = (off(), off());
	kani::assume(j >= n);
	s.st.shrink(ix(n));
	assert!(s.st.len() == 3 - n && int(s.st.fetch(ix(j - n))) == s.old(j), "[H06.frame] only the topmost slots are removed");
}
