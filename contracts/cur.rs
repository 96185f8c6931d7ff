//@ module: src/syntax/lexer/cursor.rs
// H17, H10: the cursor every automaton moves through the source.
use super::*;
use crate::symbol::Symbol;
use std::mem::ManuallyDrop;

//@ harness cursor_step property=H17,H10
//@ claim: from any state, a step moves exactly one byte ahead and never past the end; the line grows exactly at newlines, where columns restart, and the column otherwise; peek gives the byte at the offset, or nothing at the end; a rollback restores offset and position
//@ functions: Cursor::step, Cursor::peek, Cursor::is_eof, Cursor::pos, Cursor::offset, Cursor::checkpoint, Cursor::rollback
//@ bound: sources of three bytes (any bytes, any offset, any position below the machine limits)
#[kani::proof] #[kani::unwind(4)]
fn cursor_step() {
	let b = [kani::any::<u8>(), kani::any(), kani::any()];
	let (offset, line, column): (usize, u32, u32) = (kani::any(), kani::any(), kani::any());
	kani::assume(offset <= 3 && line < u32::MAX && column < u32::MAX);
	let mut c = Cursor { input: &b, offset, pos: SourcePos { line, column, path: Symbol::default() } };
	let saved = c.checkpoint();
	assert!(c.is_eof() == (offset == 3) && c.peek() == if offset < 3 { Some(b[offset]) } else { None }, "[H10.cursor] the byte at the offset, nothing at the end");
	c.step();
	let p = c.pos();
	if offset == 3 { assert!(c.offset() == 3 && p.line == line && p.column == column, "[H17.cursor] no step past the end"); }
	else {
		assert!(c.offset() == offset + 1, "[H17.cursor] one byte at a time");
		if b[offset] == b'\n' { assert!(p.line == line + 1 && p.column == 0, "[H10.position] a newline starts the next line"); }
		else { assert!(p.line == line && p.column == column + 1, "[H10.position] every other byte is one column"); }
	}
	c.rollback(saved);
	assert!(c.offset() == offset && c.pos().line == line && c.pos().column == column, "[H10.position] a rollback restores the position");
}
//@ harness cursor_start property=H17,H10
//@ claim: a source is read from its first byte, line 1
//@ functions: Cursor::from
#[kani::proof] #[kani::unwind(4)]
fn cursor_start() {
	let s = ManuallyDrop::new(Source { path: Symbol::default(), contents: Box::new([kani::any(), kani::any()]) });
	let c = Cursor::from(&*s);
	assert!(c.offset() == 0 && c.pos().line == 1 && c.pos().column == 0 && c.slice().len() == 2 && c.peek() == Some(s.contents[0]), "[H10.position] a source starts at its first byte, line 1");
}
