//@ module: src/syntax/parser/sync.rs
// H17: how the parser resumes after an error.
use super::*;
use std::mem::ManuallyDrop;

fn tok(k: u8) -> TokenKind { match k { 0 => TokenKind::Keyword(Keyword::End), 1 => TokenKind::Keyword(Keyword::Else), 2 => TokenKind::CloseParens, 3 => TokenKind::Comma, 4 => TokenKind::Semicolon, _ => TokenKind::CloseBracket } }
//@ harness strategies property=H17
//@ claim: each way of resuming after an error: keep skips nothing; skip-one skips one token; the others skip up to and including the token they look for; none skips a token after that
//@ functions: Strategy::synchronized
#[kani::proof] #[kani::unwind(3)]
fn strategies() {
	let k: u8 = kani::any();
	kani::assume(k < 6);
	let t = ManuallyDrop::new(tok(k));
	let any = ManuallyDrop::new(tok(3));
	let mut s = ManuallyDrop::new(Strategy::keep());
	assert!(s.synchronized(&t) && s.synchronized(&any), "[H17.sync] keep skips nothing");
	let mut s = ManuallyDrop::new(Strategy::skip_one());
	assert!(!s.synchronized(&t) && s.synchronized(&any) && s.synchronized(&t), "[H17.sync] one token is skipped");
	let mut s = ManuallyDrop::new(Strategy::keyword(Keyword::End));
	assert!(!s.synchronized(&t) && s.synchronized(&any) == (k == 0), "[H17.sync] up to and including the keyword");
	let mut s = ManuallyDrop::new(Strategy::token(TokenKind::CloseParens));
	assert!(!s.synchronized(&t) && s.synchronized(&any) == (k == 2), "[H17.sync] up to and including the token");
	let mut s = ManuallyDrop::new(Strategy::block_terminator());
	assert!(!s.synchronized(&t) && s.synchronized(&any) == (k < 2), "[H17.sync] up to and including the end of the block");
}
//@ harness forced_skip property=H17
//@ claim: when a statement fails, resuming skips at least one token, whatever the strategy asked for: the parser cannot stay where it is
//@ functions: ResultExt::force_sync_skip, Strategy::synchronized
#[kani::proof] #[kani::unwind(3)]
fn forced_skip() {
	let k: u8 = kani::any();
	kani::assume(k < 5);
	let s = match k { 0 => Strategy::Keep, 1 => Strategy::skip_one(), 2 => Strategy::keyword(Keyword::End), 3 => Strategy::block_terminator(), _ => Strategy::basic_command_terminator() };
	let r: Result<(), u8> = Err((7, s));
	let r = ManuallyDrop::new(r.force_sync_skip());
	match &*r {
		Err((e, s)) => {
			let mut s = ManuallyDrop::new(unsafe { std::ptr::read(s) });
			let t = ManuallyDrop::new(tok(3));
			assert!(*e == 7 && !s.synchronized(&t), "[H17.progress] at least one token is skipped, and the error is the one reported");
		}
		Ok(()) => assert!(false, "[H17.progress] the error is kept"),
	}
	let o: Result<(), u8> = Ok(());
	assert!(o.force_sync_skip().is_ok(), "[H17.progress] what parsed is kept");
}
