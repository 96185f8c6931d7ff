//@ module: src/semantic/scope.rs
// H08, H09: identifiers resolve to the innermost variable of that name; each variable has a
// slot of its own; a variable of an enclosing function is captured through every function in
// between.
use super::*;
use std::mem::ManuallyDrop;

pub fn csym(k: u32) -> Symbol { unsafe { std::mem::transmute::<u32, Symbol>(k) } }
fn pos() -> SourcePos { SourcePos::default() }
/// One of three names a program can use.
fn name() -> Symbol { let k: u32 = kani::any(); kani::assume(k >= 1 && k <= 3); csym(k) }
fn slot() -> SlotIx { SlotIx(kani::any()) }
fn scope1(a: (Symbol, SlotIx)) -> Scope { Scope { variables: HashMap { entries: vec![a] } } }
fn frame(slots: SlotIx, scopes: Vec<Scope>) -> Frame { Frame { slots, captures: Vec::new(), self_slot: None, scopes } }
fn find(f: &Frame, s: Symbol) -> Option<u32> {
	// what the language says: the innermost scope that declares the name
	let mut i = f.scopes.len();
	while i > 0 {
		i -= 1;
		let e = &f.scopes[i].variables.entries;
		let mut j = 0;
		while j < e.len() { if e[j].0 == s { return Some(e[j].1.0); } j += 1; }
	}
	None
}

//@ harness declare_resolve property=H08,H09
//@ claim: a declaration is refused iff the name is already declared in the same block, and then changes nothing; otherwise the variable gets a slot no other variable of the function has, hides outer variables of the same name until its block ends, and no other name is affected; a name resolves to the innermost declaration
//@ bound: a function with two nested blocks, one variable each (any names, any slots below the next free one)
//@ functions: Frame::declare, Frame::resolve, Frame::enter_block, Frame::exit_block, Scope::declare, Scope::resolve
#[kani::proof] #[kani::unwind(4)]
fn declare_resolve() {
	let (a, b, s, t) = (name(), name(), name(), name());
	let (ia, ib, n) = (slot(), slot(), slot());
	kani::assume(ia.0 < n.0 && ib.0 < n.0 && ia.0 != ib.0 && n.0 < u32::MAX - 2);
	let mut f = ManuallyDrop::new(frame(n, vec![scope1((a, ia)), scope1((b, ib))]));
	let old = find(&f, t);
	assert!(f.resolve(t).map(|i| i.0) == old, "[H08.resolve] a name is the innermost variable of that name");
	if kani::any() {
		// in the current block
		let r = ManuallyDrop::new(f.declare(s, pos()));
		assert!(r.is_err() == (s == b), "[H09.duplicate] a name is declared at most once per block");
		let now = f.resolve(t).map(|i| i.0);
		match &*r {
			Err(_) => assert!(now == old && f.slots.0 == n.0, "[H09.duplicate] a refused declaration changes nothing"),
			Ok(i) => {
				assert!(i.0 == n.0 && f.slots.0 == n.0 + 1, "[H08.slot] each variable has a slot of its own");
				assert!(now == if s == t { Some(i.0) } else { old }, "[H08.resolve] a declared name is its variable, other names are unaffected");
			}
		}
	} else {
		// in a block of its own
		f.enter_block();
		assert!(f.resolve(t).map(|i| i.0) == old, "[H08.block] entering a block hides nothing");
		let r = ManuallyDrop::new(f.declare(s, pos()));
		assert!(matches!(&*r, Ok(i) if i.0 == n.0), "[H08.shadow] an inner block may declare any name, with a slot of its own");
		assert!(f.resolve(t).map(|i| i.0) == if s == t { Some(n.0) } else { old }, "[H08.shadow] it hides the outer variable of that name");
		f.exit_block();
		assert!(f.resolve(t).map(|i| i.0) == old, "[H08.shadow] until its block ends");
		assert!(f.slots.0 == n.0 + 1 && f.scopes.len() == 2, "[H08.slot] its slot is not given out again");
	}
	kani::cover!(s == t && s != b, "fresh names are reached");
}

//@ harness self_slot property=H06,H08
//@ claim: self has one slot per function, of its own
//@ functions: Frame::resolve_or_insert_self
#[kani::proof] #[kani::unwind(4)]
fn self_slot() {
	let n = slot();
	kani::assume(n.0 < u32::MAX - 2);
	let mut f = ManuallyDrop::new(frame(n, vec![]));
	let i = f.resolve_or_insert_self();
	let j = f.resolve_or_insert_self();
	assert!(i.0 == n.0 && j.0 == i.0 && f.slots.0 == n.0 + 1 && f.self_slot == Some(i), "[H06.self] self has one slot of its own");
}

// The interner at its contract: equal texts, equal symbols; a text no program can write is
// none of the program's names.
fn text(_: &symbol::Interner, s: Symbol) -> Option<&[u8]> {
	Some(if s == csym(1) { &b"a"[..] } else if s == csym(2) { &b"bb"[..] } else if s == csym(3) { &b"ccc"[..] } else { panic!("MODEL: unknown symbol") })
}
fn intern<T: AsRef<[u8]>>(_: &mut symbol::Interner, t: T) -> Symbol {
	let n = t.as_ref().len() as u32;
	csym(if n <= 3 { n } else if n >= 8 && n <= 10 { n + 93 } else { panic!("MODEL: unknown text") })
}
// The state lives in local arrays: the verifier keeps their contents apart, where it would merge the heap's.
macro_rules! vin { ($n:ident: [$t:ty; $k:expr] = $e:expr, $len:expr) => { let mut $n: ManuallyDrop<[$t; $k]> = ManuallyDrop::new($e); let $n = unsafe { Vec::from_raw_parts($n.as_mut_ptr(), $len, $k) }; } }
macro_rules! fr { ($n:ident: $slots:expr, [$(($s:expr, $i:expr)),*], $nv:expr, [$(($f:expr, $to:expr)),*], $nc:expr) => {
	vin!(vars: [(Symbol, SlotIx); 3] = [$((csym($s), SlotIx($i))),*], $nv);
	vin!(scopes: [Scope; 1] = [Scope { variables: HashMap { entries: vars } }], 1);
	vin!(caps: [Capture; 3] = [$(Capture { from: SlotIx($f), to: SlotIx($to) }),*], $nc);
	let $n = Frame { slots: SlotIx($slots), captures: caps, self_slot: None, scopes };
} }
macro_rules! three { ($st:ident, ($a:expr, $b:expr, $c:expr)) => {
	fr!(f0: 4, [($a, 1), (0, 0), (0, 0)], 1, [(0, 0), (0, 0), (0, 0)], 0);
	fr!(f1: 5, [($b, 2), (0, 0), (0, 0)], 1, [(0, 0), (0, 0), (0, 0)], 0);
	fr!(f2: 6, [($c, 3), (0, 0), (0, 0)], 1, [(0, 0), (0, 0), (0, 0)], 0);
	vin!(frames: [Frame; 3] = [f0, f1, f2], 3);
	let mut $st = ManuallyDrop::new(Stack { frames });
} }
/// Resolve `s` in the innermost of three functions declaring a, b and c; `origin` declares it.
fn chain(a: u32, b: u32, c: u32, s: u32, origin: usize) {
	three!(st, (a, b, c));
	let mut interner = ManuallyDrop::new(symbol::Interner::new());
	let r = ManuallyDrop::new(st.resolve(csym(s), pos(), &mut interner));
	match &*r {
		Err(_) => assert!(origin == 9, "[H09.undeclared] a declared name resolves"),
		Ok(i) => {
			assert!(origin != 9, "[H09.undeclared] an undeclared name is an error");
			assert!(i.0 == if origin == 2 { 3 } else { 6 }, "[H08.resolve] the slot of the variable, or a slot of its own for a captured one");
		}
	}
	let f = &st.frames;
	assert!(f[0].captures.len() == 0 && f[1].captures.len() == if origin == 0 { 1 } else { 0 } && f[2].captures.len() == if origin < 2 { 1 } else { 0 }, "[H08.capture] exactly the functions between use and declaration capture the variable");
	if origin == 0 {
		let (x, y) = (&f[1].captures[0], &f[2].captures[0]);
		assert!(x.from.0 == 1 && x.to.0 == 5 && f[1].slots.0 == 6, "[H08.capture] the outermost one captures the variable itself, into a slot of its own");
		assert!(y.from.0 == 5 && y.to.0 == 6 && f[2].slots.0 == 7, "[H08.capture] the next one captures it from its parent's slot");
	}
	if origin == 1 {
		let y = &f[2].captures[0];
		assert!(y.from.0 == 2 && y.to.0 == 6 && f[2].slots.0 == 7, "[H08.capture] captured from the declaring function's slot");
	}
	let mut t = 1;
	while t <= 3 {
		let is = |x: u32, k: u32| if t == x { Some(k) } else { None };
		assert!(find(&f[0], csym(t)) == is(a, 1) && find(&f[1], csym(t)) == is(b, 2) && find(&f[2], csym(t)) == is(c, 3), "[H08.capture] capturing declares no name in any function");
		t += 1;
	}
	assert!(f[0].slots.0 == 4, "[H08.capture] the outermost function gets no slot");
}
//@ harness capture_chain property=H08
//@ claim: a name resolves in the innermost function that declares it; in the function itself it is that variable's slot; otherwise every function in between captures it, each from the slot its parent has it in, into a slot of its own; no name of any function resolves differently afterwards; an unknown name is an error that changes nothing
//@ bound: three nested functions, one variable each: every pattern of equal and distinct names that selects the declaring function
//@ functions: Stack::resolve, Frame::capture, Frame::resolve, Scope::resolve
//@ assumes: the interner gives equal texts equal symbols, and the captured text is none of the program's names
#[kani::proof] #[kani::unwind(9)]
#[kani::stub(symbol::Interner::resolve, text)] #[kani::stub(symbol::Interner::get_or_intern, intern)]
fn capture_chain() {
	chain(1, 2, 3, 1, 0); chain(1, 2, 2, 1, 0);
	chain(1, 2, 3, 2, 1); chain(2, 2, 3, 2, 1);
	chain(1, 2, 3, 3, 2); chain(3, 3, 3, 3, 2); chain(3, 2, 3, 3, 2);
	chain(1, 1, 1, 2, 9);
}
fn again(deep: bool, again: bool) {
	fr!(f0: 2, [(1, 0), (2, 1), (0, 0)], 2, [(0, 0), (0, 0), (0, 0)], 0);
	fr!(f1: 4, [(101, 3), (0, 0), (0, 0)], 1, [(0, 3), (0, 0), (0, 0)], 1);
	fr!(f2: if deep { 1 } else { 0 }, [(101, 0), (0, 0), (0, 0)], if deep { 1 } else { 0 }, [(3, 0), (0, 0), (0, 0)], if deep { 1 } else { 0 });
	vin!(frames: [Frame; 3] = [f0, f1, f2], 3);
	let mut st = ManuallyDrop::new(Stack { frames });
	let mut interner = ManuallyDrop::new(symbol::Interner::new());
	let r = ManuallyDrop::new(st.resolve(if again { csym(1) } else { csym(2) }, pos(), &mut interner));
	let i = match &*r { Ok(i) => i.0, Err(_) => { assert!(false, "[H08.resolve] a declared name resolves"); return; } };
	let (m, n) = (st.frames[1].captures.len(), st.frames[2].captures.len());
	if again {
		assert!(m == 1 && n == 1 && i == 0, "[H08.capture] a captured variable is captured once, and keeps its slot");
		let y = &st.frames[2].captures[0];
		assert!(y.from.0 == 3 && y.to.0 == 0, "[H08.capture] from the slot the parent has it in");
	} else {
		let k = if deep { 1 } else { 0 };
		assert!(m == 2 && n == k + 1 && i == k as u32, "[H08.capture] another variable gets a slot of its own");
		let (x, y) = (&st.frames[1].captures[1], &st.frames[2].captures[k]);
		assert!(x.from.0 == 1 && x.to.0 == 4 && y.from.0 == 4 && y.to.0 == i, "[H08.capture] each function captures it from its parent's slot");
	}
}
//@ harness capture_again property=H08
//@ claim: a variable captured before, by the function or by the one in between, keeps its slot and is not captured again; another variable gets its own
//@ bound: three nested functions, the outermost with two variables
//@ functions: Stack::resolve, Frame::capture
//@ assumes: the interner gives equal texts equal symbols
#[kani::proof] #[kani::unwind(9)]
#[kani::stub(symbol::Interner::resolve, text)] #[kani::stub(symbol::Interner::get_or_intern, intern)]
fn capture_again() { again(true, true); again(false, true); again(true, false); again(false, false); }
//@ harness frame_enter property=H08,H06
//@ claim: a function starts with no variables, no captures and no slots: its first variable takes its first slot; the enclosing function is untouched
//@ functions: Stack::enter_frame, Frame::new, Frame::enter_block
#[kani::proof] #[kani::unwind(4)]
fn frame_enter() {
	fr!(f0: 4, [(1, 1), (0, 0), (0, 0)], 1, [(0, 0), (0, 0), (0, 0)], 0);
	vin!(frames: [Frame; 3] = [f0, Frame::new(), Frame::new()], 1);
	let mut st = ManuallyDrop::new(Stack { frames });
	st.enter_frame();
	assert!(st.frames.len() == 2, "[H08.frame] a function has a frame of its own");
	let f = &st.frames[1];
	assert!(f.slots.0 == 0 && f.captures.len() == 0 && f.self_slot.is_none() && f.scopes.len() == 1, "[H08.frame] a function starts with no slots and no captures, in one block");
	assert!(f.scopes[0].variables.len() == 0, "[H08.frame] a function starts with no variables of its own");
	assert!(st.frames[0].slots.0 == 4 && find(&st.frames[0], csym(1)) == Some(1), "[H08.frame] the enclosing function is as before");
}
//@ harness frame_exit property=H08,H06
//@ claim: leaving a function gives exactly its slots, its captures in order and its self slot; the enclosing function is the current one again, unchanged
//@ functions: Stack::exit_frame, FrameInfo::from
//@ bound: two captures
#[kani::proof] #[kani::unwind(4)]
fn frame_exit() {
	fr!(f0: 4, [(1, 1), (0, 0), (0, 0)], 1, [(0, 0), (0, 0), (0, 0)], 0);
	// (capacity 0: dropped with the frame, and nothing for the allocator to free)
	let mut vars = ManuallyDrop::new([(csym(1), SlotIx(0)), (csym(2), SlotIx(1))]);
	let scopes = vec![Scope { variables: HashMap { entries: unsafe { Vec::from_raw_parts(vars.as_mut_ptr(), 2, 0) } } }];
	let mut caps = ManuallyDrop::new([Capture { from: SlotIx(1), to: SlotIx(7) }, Capture { from: SlotIx(3), to: SlotIx(8) }]);
	let f1 = unsafe { Frame { slots: SlotIx(9), captures: Vec::from_raw_parts(caps.as_mut_ptr(), 2, 2), self_slot: None, scopes } };
	vin!(frames: [Frame; 2] = [f0, f1], 2);
	let n: u32 = kani::any();
	let mut st = ManuallyDrop::new(Stack { frames });
	st.frames[1].self_slot = if kani::any() { Some(SlotIx(n)) } else { None };
	let own = st.frames[1].self_slot;
	let info = ManuallyDrop::new(exit(&mut st));
	assert!(info.slots.0 == 9 && info.self_slot == own, "[H08.frame] the frame has a slot for each variable");
	assert!(info.captures.len() == 2 && info.captures[0].from.0 == 1 && info.captures[0].to.0 == 7 && info.captures[1].from.0 == 3 && info.captures[1].to.0 == 8, "[H08.frame] and the captures made, in order");
	assert!(st.frames.len() == 1 && st.frames[0].slots.0 == 4 && find(&st.frames[0], csym(1)) == Some(1) && find(&st.frames[0], csym(2)).is_none(), "[H08.frame] the enclosing function is as before");
}
fn exit(st: &mut Stack) -> FrameInfo { st.exit_frame() }
