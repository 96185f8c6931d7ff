//@ module: src/semantic/mod.rs
// H09: what the static analysis accepts, node by node.
use super::*;
use crate::syntax::ast::{Expr as E, Statement as S, Block as B, Literal as L};
use std::mem::ManuallyDrop;

pub const fn csym(k: u32) -> Symbol { unsafe { std::mem::transmute::<u32, Symbol>(k) } }
pub const fn cpos(k: u32) -> SourcePos { SourcePos { line: k, column: 7, path: csym(0) } }
pub const fn cid(k: u32) -> E { E::Identifier { identifier: csym(k), pos: cpos(k) } }

// ---- the callees, at their contracts ----
/// Events, in order: leaf k is 16 * k, its flags (in a function, in a loop) added; the rest below.
pub static mut LOG: [u32; 16] = [0; 16];
pub static mut N: usize = 0;
const BLOCK: u32 = 16 * 10;
const ENTER: u32 = 16 * 11;
const EXIT: u32 = 16 * 12;
const ENTER_FRAME: u32 = 16 * 13;
const EXIT_FRAME: u32 = 16 * 14;
const RESOLVE: u32 = 16 * 30;
const DECLARE: u32 = 16 * 20;
/// Whether each part is well-formed.
pub static mut OK: [bool; 8] = [true; 8];
pub static mut BLOCK_OK: bool = true;
pub static mut DECL_OK: bool = true;
fn log(k: u32) { unsafe { LOG[N] = k; N += 1; } }
fn fl(a: &Analyzer) -> u32 { a.in_function as u32 + 2 * a.in_loop as u32 }
impl<'a> Analyzer<'a> {
fn leaf(&mut self, e: E) -> Option<Expr> {
	let k = match &e { E::Identifier { identifier, .. } => usize::from(*identifier) as u32, _ => panic!("MODEL: leaf expected") };
	std::mem::forget(e);
	log(16 * k + fl(self));
	if unsafe { OK[k as usize] } { Some(Expr::Identifier { slot_ix: mem::SlotIx(k), pos: cpos(k) }) } else { None }
}
fn any_block(&mut self, b: B) -> Option<Block> {
	std::mem::forget(b);
	log(BLOCK + fl(self));
	if unsafe { BLOCK_OK } { Some(Block(Box::new([]))) } else { None }
}
}
fn s_enter(_: &mut scope::Stack) { log(ENTER) }
fn s_exit(_: &mut scope::Stack) { log(EXIT) }
fn s_enter_frame(_: &mut scope::Stack) { log(ENTER_FRAME) }
fn s_exit_frame(_: &mut scope::Stack) -> mem::FrameInfo { log(EXIT_FRAME); mem::FrameInfo { slots: mem::SlotIx(77), captures: Box::new([]), self_slot: None } }
fn s_declare(_: &mut scope::Stack, s: Symbol, pos: SourcePos) -> Result<mem::SlotIx, Error> {
	log(DECLARE + usize::from(s) as u32);
	if unsafe { DECL_OK } { Ok(mem::SlotIx(40)) } else { Err(Error::duplicate_variable(s, pos)) }
}
fn s_resolve(_: &mut scope::Stack, s: Symbol, pos: SourcePos, _: &mut symbol::Interner) -> Result<mem::SlotIx, Error> {
	let k = usize::from(s) as u32;
	log(RESOLVE + k);
	if unsafe { OK[k as usize] } { Ok(mem::SlotIx(k)) } else { Err(Error::undeclared_variable(s, pos)) }
}
fn s_self(_: &mut scope::Stack) -> mem::SlotIx { mem::SlotIx(41) }
fn events(want: &[u32]) -> bool {
	// (no loop: the bound on loops is kept at what the drop of an empty tree needs)
	unsafe {
		let n = want.len();
		let at = |i: usize| i >= n || LOG[i] == want[i];
		N == n && n <= 6 && at(0) && at(1) && at(2) && at(3) && at(4) && at(5)
	}
}
// The analysis of one node, for every combination of outcomes of its parts.  (Each
// combination is an obligation of its own: with constant outcomes the verifier need not
// consider dropping every possible tree.)
macro_rules! analyzer { ($a:ident, $errors:ident, $f:expr, $l:expr) => {
	let mut $errors = ManuallyDrop::new(Errors(Vec::new()));
	let mut scope = ManuallyDrop::new(scope::Stack::default());
	let mut keys = ManuallyDrop::new(HashSet::default());
	let mut interner = ManuallyDrop::new(symbol::Interner::new());
	let mut $a = ManuallyDrop::new(Analyzer { errors: &mut *$errors, scope: &mut *scope, dict_keys: &mut *keys, interner: &mut *interner, in_function: $f, in_loop: $l, dropped: false });
	unsafe { N = 0; }
} }
/// Harnesses named after their cases.
macro_rules! cases { ($($name:ident = $call:expr;)*) => { $(
	#[kani::proof] #[kani::unwind(2)]
	#[kani::stub(Analyzer::analyze_expr, Analyzer::leaf)] #[kani::stub(Analyzer::analyze_block, Analyzer::any_block)]
	#[kani::stub(scope::Stack::enter_block, s_enter)] #[kani::stub(scope::Stack::exit_block, s_exit)]
	#[kani::stub(scope::Stack::enter_frame, s_enter_frame)] #[kani::stub(scope::Stack::exit_frame, s_exit_frame)]
	#[kani::stub(scope::Stack::declare, s_declare)] #[kani::stub(scope::Stack::resolve, s_resolve)] #[kani::stub(scope::Stack::resolve_or_insert_self, s_self)]
	fn $name() { $call }
)* } }
/// The same for nodes that are expressions: their parts are identifiers, resolved or not.
macro_rules! exprs { ($($name:ident = $call:expr;)*) => { $(
	#[kani::proof] #[kani::unwind(2)]
	#[kani::stub(Analyzer::analyze_block, Analyzer::any_block)]
	#[kani::stub(scope::Stack::enter_block, s_enter)] #[kani::stub(scope::Stack::exit_block, s_exit)]
	#[kani::stub(scope::Stack::enter_frame, s_enter_frame)] #[kani::stub(scope::Stack::exit_frame, s_exit_frame)]
	#[kani::stub(scope::Stack::declare, s_declare)] #[kani::stub(scope::Stack::resolve, s_resolve)] #[kani::stub(scope::Stack::resolve_or_insert_self, s_self)]
	fn $name() { $call }
)* } }

// ---- while ----
fn while_case(c: bool, b: bool, f: bool, l: bool) {
	analyzer!(a, errors, f, l);
	unsafe { OK[1] = c; BLOCK_OK = b; }
	let flags = f as u32 + 2 * l as u32;
	let x = ManuallyDrop::new(a.analyze_statement(S::While { condition: cid(1), block: B::IllFormed, pos: cpos(9) }));
	assert!(events(&[16 + flags, ENTER, BLOCK + (flags | 2), EXIT]), "[H09.while] the condition is outside the loop, the body inside, in a block of its own");
	assert!(x.is_some() == (c && b), "[H09.while] accepted iff both parts are");
	assert!(errors.0.len() == 0, "[H09.while] no error of its own");
}
//@ harness while_ok property=H09
//@ claim: while: the condition is analysed outside the loop, then the body inside it, in a block of its own; accepted
//@ functions: Analyzer::analyze_statement, Analyzer::enter_loop, Analyzer::drop
//@ assumes: the analyses of the parts are taken at their contract
//@ harness while_cond property=H09
//@ claim: while: refused when the condition is; the body is analysed all the same
//@ harness while_body property=H09
//@ claim: while: refused when the body is
cases! { while_ok = while_case(true, true, false, false); while_cond = while_case(false, true, true, false); while_body = while_case(true, false, true, true); }

// ---- for ----
fn for_case(e: bool, d: bool, b: bool, id: u32, f: bool, l: bool) {
	analyzer!(a, errors, f, l);
	unsafe { OK[1] = e; BLOCK_OK = b; DECL_OK = d; }
	let flags = f as u32 + 2 * l as u32;
	let x = ManuallyDrop::new(a.analyze_statement(S::For { identifier: csym(id), expr: cid(1), block: B::IllFormed, pos: cpos(9) }));
	if id == 0 { assert!(events(&[16 + flags, ENTER, BLOCK + (flags | 2), EXIT]), "[H09.for] both parts are analysed"); }
	else { assert!(events(&[16 + flags, ENTER, DECLARE + id, BLOCK + (flags | 2), EXIT]), "[H08.for] the iterator is outside the loop and does not see the variable; the body is inside, in a block of its own, with the variable"); }
	assert!(x.is_some() == (e && d && b && id != 0), "[H09.for] accepted iff every part is");
	assert!(errors.0.len() == if d { 0 } else { 1 }, "[H09.for] a variable declared twice is reported");
}
//@ harness for_ok property=H09,H08 tier=thorough
//@ claim: for: the iterator is analysed outside the loop, without the variable; then the variable is declared and the body analysed inside the loop, in a block of their own; accepted
//@ functions: Analyzer::analyze_statement, Analyzer::enter_loop, Analyzer::drop
//@ assumes: the analyses of the parts are taken at their contract
//@ harness for_expr property=H09
//@ claim: for: refused when the iterator is; the body is analysed all the same
//@ harness for_decl property=H09
//@ claim: for: refused, and reported, when the variable cannot be declared
//@ harness for_ill property=H09
//@ claim: for: refused without its variable
cases! { for_ok = for_case(true, true, true, 5, false, false); for_expr = for_case(false, true, true, 5, true, true); for_decl = for_case(true, false, true, 5, true, false); for_ill = for_case(true, true, true, 0, false, false); }

// ---- let ----
fn let_case(d: bool, e: bool) {
	analyzer!(a, errors, false, true);
	unsafe { OK[1] = e; DECL_OK = d; }
	let x = ManuallyDrop::new(a.analyze_statement(S::Let { identifier: csym(5), init: cid(1), pos: cpos(9) }));
	assert!(events(&[DECLARE + 5, 16 + 2]), "[H08.let] a variable is in scope in its own initialiser");
	assert!(x.is_some() == (d && e) && errors.0.len() == !d as usize, "[H09.let] accepted iff it can be declared and its initialiser is; a duplicate is reported");
	match &*x { Some(Statement::Assign { left: Lvalue::Identifier { slot_ix, .. }, right: Expr::Identifier { slot_ix: r, .. } }) => assert!(slot_ix.0 == 40 && r.0 == 1, "[H08.let] the initialiser is assigned to the variable"), None => (), _ => assert!(false, "[H08.let] a let is an assignment to the variable") }
}
//@ harness let_ok property=H09,H08
//@ claim: let: the variable is declared, then its initialiser analysed; the initialiser is assigned to the variable's slot
//@ functions: Analyzer::analyze_statement
//@ harness let_dup property=H09
//@ claim: let: a duplicate is reported, and the initialiser analysed all the same
//@ harness let_init property=H09
//@ claim: let: refused when the initialiser is
cases! { let_ok = let_case(true, true); let_dup = let_case(false, true); let_init = let_case(true, false); }

// ---- break ----
fn break_case(f: bool, l: bool) {
	analyzer!(a, errors, f, l);
	let x = ManuallyDrop::new(a.analyze_statement(S::Break { pos: cpos(9) }));
	assert!(events(&[]) && x.is_some() == l, "[H09.break] break is accepted inside loops only");
	assert!(errors.0.len() == !l as usize && (l || matches!(errors.0[0].kind, error::ErrorKind::BreakOutsideLoop) && errors.0[0].pos.line == 9), "[H09.break] and reported outside");
}
//@ harness break_rule property=H09
//@ claim: break is accepted iff in a loop, whether or not in a function, and reported otherwise
//@ functions: Analyzer::analyze_statement
cases! { break_rule = { break_case(true, true); break_case(false, true); break_case(true, false); break_case(false, false) }; }

// ---- lists: any error anywhere ----
static mut SEEN: [u32; 4] = [0; 4];
//@ harness items property=H09
//@ claim: lists (statements, items, arguments): every element is analysed, once, in order, also after an error; accepted iff every one is, with the results in order
//@ functions: Analyzer::analyze_items
//@ bound: three elements, each accepted or not
#[kani::proof] #[kani::unwind(5)]
fn items() {
	analyzer!(a, errors, false, false);
	unsafe { OK[1] = kani::any(); OK[2] = kani::any(); OK[3] = kani::any(); }
	let x = ManuallyDrop::new(a.analyze_items(|_, k: u32| unsafe { SEEN[N] = k; N += 1; if OK[k as usize] { Some(10 * k) } else { None } }, [1u32, 2, 3]));
	assert!(unsafe { N == 3 && SEEN[0] == 1 && SEEN[1] == 2 && SEEN[2] == 3 }, "[H09.list] every element is analysed, once, in order");
	assert!(x.is_some() == (ok(1) && ok(2) && ok(3)), "[H09.list] an error in any element refuses the list");
	if let Some(x) = &*x { assert!(x.len() == 3 && x[0] == 10 && x[1] == 20 && x[2] == 30, "[H09.list] the results are in order"); }
	kani::cover!(x.is_some(), "accepted lists are reached");
}
fn ok(k: usize) -> bool { unsafe { OK[k] } }

//@ harness contexts property=H09,H08
//@ claim: a block keeps the function and loop it is in; a loop body is in a loop, of the same function; a function body is in a function and in no loop; each opens one scope and closes it when left, and leaves the enclosing context as it was
//@ functions: Analyzer::enter_block, Analyzer::enter_loop, Analyzer::enter_frame, Analyzer::exit_frame, Analyzer::drop
#[kani::proof] #[kani::unwind(2)]
#[kani::stub(scope::Stack::enter_block, s_enter)] #[kani::stub(scope::Stack::exit_block, s_exit)]
#[kani::stub(scope::Stack::enter_frame, s_enter_frame)] #[kani::stub(scope::Stack::exit_frame, s_exit_frame)]
fn contexts() {
	let (f, l): (bool, bool) = (kani::any(), kani::any());
	analyzer!(a, errors, f, l);
	{
		let b = a.enter_block();
		assert!(b.in_function == f && b.in_loop == l, "[H09.block] a block is in the function and loop around it");
	}
	assert!(events(&[ENTER, EXIT]), "[H08.block] a block opens a scope and closes it");
	unsafe { N = 0; }
	{
		let mut b = a.enter_loop();
		assert!(b.in_function == f && b.in_loop, "[H09.loop] the body of a loop is in a loop, and in the function around it");
		let g = b.enter_frame();
		assert!(g.in_function && !g.in_loop, "[H09.function] the body of a function is in a function and in no loop");
		let info = ManuallyDrop::new(g.exit_frame());
		assert!(info.slots.0 == 77, "[H08.frame] leaving a function gives its frame");
		assert!(b.in_function == f && b.in_loop, "[H09.function] the enclosing context is as before");
	}
	assert!(events(&[ENTER, ENTER_FRAME, EXIT_FRAME, EXIT]), "[H08.frame] scopes are closed in the order opposite to the one they are opened in, once each");
	assert!(a.in_function == f && a.in_loop == l, "[H09.loop] the enclosing context is as before");
}

// ---- whole programs ----
static mut ERRS: bool = false;
static mut SOME: bool = false;
impl<'a> Analyzer<'a> {
fn any_program(&mut self, b: B) -> Option<Block> {
	std::mem::forget(b);
	log(BLOCK + fl(self));
	unsafe {
		if ERRS { self.report(Error { kind: error::ErrorKind::BreakOutsideLoop, pos: cpos(5) }); }
		if SOME { Some(Block(Box::new([]))) } else { None }
	}
}
}
fn program_case(some: bool, errs: bool) {
	unsafe { N = 0; SOME = some; ERRS = errs; DECL_OK = true; }
	let mut interner = ManuallyDrop::new(symbol::Interner::new());
	let r = ManuallyDrop::new(Analyzer::analyze(ast::Ast { source: csym(3), statements: B::IllFormed }, &mut interner));
	assert!(events(&[ENTER_FRAME, DECLARE + 1, BLOCK, EXIT_FRAME]), "[H09.program] a program is analysed once, outside functions and loops, with std declared");
	match &*r {
		Ok(p) => assert!(some && !errs && p.source == csym(3) && p.root_slots.0 == 77 && p.statements.0.len() == 0, "[H09.program] a program with an error, or ill-formed, is never produced; one without is what was analysed"),
		Err(e) => assert!((!some || errs) && e.0.len() == errs as usize, "[H09.program] every error is reported, and only then is the program refused"),
	}
}
//@ harness program_node property=H09
//@ claim: a program is produced iff its statements are accepted and no error was reported; otherwise all reported errors are the result
//@ functions: Analyzer::analyze, Analyzer::new, Analyzer::exit_frame
//@ assumes: analyze_block is taken at its contract: accepted or not, reporting errors or not
#[kani::proof] #[kani::unwind(8)]
#[kani::stub(Analyzer::analyze_block, Analyzer::any_program)] #[kani::stub(scope::Stack::declare, s_declare)] #[kani::stub(symbol::Interner::get_or_intern, one)]
#[kani::stub(scope::Stack::enter_frame, s_enter_frame)] #[kani::stub(scope::Stack::exit_frame, s_exit_frame)] #[kani::stub(scope::Stack::exit_block, s_exit)]
fn program_node() { program_case(true, false); program_case(true, true); program_case(false, true); program_case(false, false); }
fn one<T: AsRef<[u8]>>(_: &mut symbol::Interner, t: T) -> Symbol { let t = t.as_ref(); assert!(t.len() == 3 && t[0] == b's' && t[1] == b't' && t[2] == b'd', "[H09.std] std is predeclared"); csym(1) }
