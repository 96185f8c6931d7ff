//@ module: src/syntax/lexer/automata/mod.rs
// H10, H17: the lexer automata, state by state, for every byte (and the end of the input).
use super::*;
use super::{number::NumberLiteral, string::{ByteLiteral, StringLiteral}, word::IsWord};
use crate::syntax::Source;
use crate::symbol::Symbol as Sym;

fn src(b: &[u8]) -> std::mem::ManuallyDrop<Source> { std::mem::ManuallyDrop::new(Source { path: Sym::default(), contents: b.into() }) }
fn at<'a>(s: &'a Source, n: usize) -> Cursor<'a> {
	let mut c = Cursor::from(s);
	let mut i = 0;
	while i < n { c.step(); i += 1; }
	c
}
/// A cursor on an arbitrary byte (Some) or at the end of the input (None), after one other byte.
fn any_input() -> (std::mem::ManuallyDrop<Source>, Option<u8>) {
	let b: u8 = kani::any();
	if kani::any() { (src(&[b'z', b]), Some(b)) } else { (src(&[b'z']), None) }
}
const ROOT: u8 = 0; const COMMENT: u8 = 1; const NUMBER: u8 = 2; const BYTE: u8 = 3; const STRING: u8 = 4; const WORD: u8 = 5; const SYMBOL: u8 = 6; const COMMAND: u8 = 7; const OTHER: u8 = 8;
fn st(s: &State) -> u8 {
	match s {
		State::Root(_) => ROOT, State::Comment(_) => COMMENT, State::NumberLiteral(_) => NUMBER, State::ByteLiteral(_) => BYTE, State::StringLiteral(_) => STRING,
		State::Word(_) => WORD, State::Symbol(_) => SYMBOL, State::Command(_) => COMMAND, _ => OTHER,
	}
}
type MT = std::mem::ManuallyDrop<Transition>;
fn md(t: Transition) -> MT { std::mem::ManuallyDrop::new(t) }
fn byte_state(t: MT) -> ByteLiteral { match &t.state { State::ByteLiteral(l) => unsafe { std::ptr::read(l) }, _ => { assert!(false, "[H10.byte] still in the literal"); loop {} } } }
fn string_state(t: MT) -> StringLiteral { match &t.state { State::StringLiteral(l) => unsafe { std::ptr::read(l) }, _ => { assert!(false, "[H10.string] still in the literal"); loop {} } } }
fn forward(t: &Transition) -> bool { matches!(t.step, Step::Forward) }
fn resume(t: &Transition) -> bool { matches!(t.step, Step::Resume) }
fn tok(t: &Transition) -> Option<&TokenKind> { match &t.output { Some(Ok(t)) => Some(&t.kind), _ => None } }
fn err(t: &Transition) -> bool { matches!(t.output, Some(Err(_))) }

//@ harness root_step property=H10,H17
//@ claim: at the top level every byte starts the token class the language gives it; whitespace and comments yield nothing; any other byte is a diagnostic
//@ functions: Root::visit, SymbolChar::from_first, IsWord
#[kani::proof] #[kani::unwind(4)]
fn root_step() {
	let (s, c) = any_input();
	let cur = at(&s, 1);
	let t = md(Root.visit(&cur));
	match c {
		None => assert!(t.output.is_none() && st(&t.state) == ROOT, "[H17.root] the end of the input yields nothing"),
		Some(b' ' | b'\t' | b'\n' | b'\r' | 0x0c) => assert!(t.output.is_none() && forward(&t) && st(&t.state) == ROOT, "[H10.root] whitespace is skipped"),
		Some(b'#') => assert!(t.output.is_none() && st(&t.state) == COMMENT, "[H10.root] # starts a comment"),
		Some(b'"') => assert!(t.output.is_none() && forward(&t) && st(&t.state) == STRING, "[H10.root] a double quote starts a string"),
		Some(b'\'') => assert!(t.output.is_none() && forward(&t) && st(&t.state) == BYTE, "[H10.root] a single quote starts a byte"),
		Some(b'0'..=b'9') => assert!(t.output.is_none() && st(&t.state) == NUMBER, "[H10.root] a digit starts a number"),
		Some(b'a'..=b'z' | b'A'..=b'Z' | b'_') => assert!(t.output.is_none() && st(&t.state) == WORD, "[H10.root] a letter or underscore starts a word"),
		Some(b'<' | b'>' | b'=' | b'+' | b'!' | b'@' | b'$' | b'&') => assert!(t.output.is_none() && forward(&t) && st(&t.state) == SYMBOL, "[H10.root] may be a two character symbol"),
		Some(b) => {
			let want = match b {
				b'-' => Some(TokenKind::Operator(Operator::Minus)), b'*' => Some(TokenKind::Operator(Operator::Times)), b'/' => Some(TokenKind::Operator(Operator::Div)),
				b'%' => Some(TokenKind::Operator(Operator::Mod)), b'.' => Some(TokenKind::Operator(Operator::Dot)), b'?' => Some(TokenKind::Operator(Operator::Try)),
				b':' => Some(TokenKind::Colon), b',' => Some(TokenKind::Comma), b'(' => Some(TokenKind::OpenParens), b')' => Some(TokenKind::CloseParens),
				b'[' => Some(TokenKind::OpenBracket), b']' => Some(TokenKind::CloseBracket), b'{' => Some(TokenKind::Command), _ => None,
			};
			assert!(forward(&t), "[H17.root] the byte is consumed");
			match &want {
				Some(k) => assert!(same(tok(&t), k) && st(&t.state) == (if b == b'{' { COMMAND } else { ROOT }), "[H10.root] a one character symbol"),
				None => assert!(err(&t) && st(&t.state) == ROOT, "[H17.root] any other byte is diagnosed"),
			}
			std::mem::forget(want);
		}
	}
}
/// Equality of payload-free token kinds.
fn same(a: Option<&TokenKind>, b: &TokenKind) -> bool {
	match (a, b) {
		(Some(TokenKind::Operator(x)), TokenKind::Operator(y)) => x == y,
		(Some(TokenKind::Keyword(x)), TokenKind::Keyword(y)) => x == y,
		(Some(TokenKind::Literal(Literal::Nil)), TokenKind::Literal(Literal::Nil)) => true,
		(Some(TokenKind::Literal(Literal::True)), TokenKind::Literal(Literal::True)) => true,
		(Some(TokenKind::Literal(Literal::False)), TokenKind::Literal(Literal::False)) => true,
		(Some(TokenKind::Operator(_) | TokenKind::Keyword(_) | TokenKind::Literal(_) | TokenKind::Identifier(_) | TokenKind::Argument(_)), _) => false,
		(Some(x), y) => std::mem::discriminant(x) == std::mem::discriminant(y),
		(None, _) => false,
	}
}

//@ harness symbol_step property=H10,H17
//@ claim: two character symbols: longest match for every first and second byte; a lone ! @ $ & is a diagnostic
//@ functions: Symbol::visit
#[kani::proof] #[kani::unwind(4)]
fn symbol_step() {
	let (s, c) = any_input();
	let cur = at(&s, 1);
	let f: u8 = kani::any();
	kani::assume(matches!(f, b'<' | b'>' | b'=' | b'+' | b'!' | b'@' | b'$' | b'&'));
	let t = md(symbol::Symbol::from_first(f, &cur).visit(&cur));
	let two = match (f, c) {
		(b'<', Some(b'=')) => Some(TokenKind::Operator(Operator::LowerEquals)), (b'>', Some(b'=')) => Some(TokenKind::Operator(Operator::GreaterEquals)),
		(b'=', Some(b'=')) => Some(TokenKind::Operator(Operator::Equals)), (b'!', Some(b'=')) => Some(TokenKind::Operator(Operator::NotEquals)),
		(b'+', Some(b'+')) => Some(TokenKind::Operator(Operator::Concat)), (b'@', Some(b'[')) => Some(TokenKind::OpenDict),
		(b'$', Some(b'{')) => Some(TokenKind::CaptureCommand), (b'&', Some(b'{')) => Some(TokenKind::AsyncCommand), _ => None,
	};
	let one = match f { b'<' => Some(TokenKind::Operator(Operator::Lower)), b'>' => Some(TokenKind::Operator(Operator::Greater)), b'=' => Some(TokenKind::Operator(Operator::Assign)), b'+' => Some(TokenKind::Operator(Operator::Plus)), _ => None };
	let command = matches!((f, c), (b'$' | b'&', Some(b'{')));
	match (&two, &one) {
		(Some(k), _) => assert!(same(tok(&t), k) && forward(&t) && st(&t.state) == (if command { COMMAND } else { ROOT }), "[H10.symbol] the two character symbol is one token"),
		(None, Some(k)) => assert!(same(tok(&t), k) && resume(&t) && st(&t.state) == ROOT, "[H10.symbol] otherwise the one character symbol, the next byte is kept"),
		(None, None) => assert!(err(&t) && resume(&t) && st(&t.state) == ROOT, "[H17.symbol] otherwise a diagnostic, the next byte is kept"),
	}
	std::mem::forget((two, one));
}

fn escape(b: u8) -> Option<u8> { match b { b'n' => Some(10), b't' => Some(9), b'0' => Some(0), b'"' | b'\'' | b'\\' => Some(b), _ => None } }

//@ harness byte_literal property=H10,H17
//@ claim: a byte literal denotes its byte: every 2, 3 and 4 byte text after the opening quote gives the byte it spells, or a diagnostic
//@ functions: ByteLiteral::visit, validate_escape
#[kani::proof] #[kani::unwind(4)]
fn byte_literal() {
	let b: [u8; 3] = kani::any();
	let s = src(&[b'\'', b[0], b[1], b[2]]);
	let c0 = at(&s, 0); let c1 = at(&s, 1); let c2 = at(&s, 2); let c3 = at(&s, 3);
	let t = md(ByteLiteral::at(&c0).visit(&c1));
	if b[0] == b'\'' {
		assert!(err(&t) && st(&t.state) == ROOT, "[H10.byte] an empty literal is diagnosed");
		return;
	}
	assert!(t.output.is_none() && forward(&t), "[H10.byte] the first byte is consumed");
	let l = byte_state(t);
	let t = md(l.visit(&c2));
	if b[0] != b'\\' {
		if b[1] == b'\'' { assert!(matches!(tok(&t), Some(TokenKind::Literal(Literal::Byte(x))) if *x == b[0]) && forward(&t), "[H10.byte] an ordinary byte denotes itself"); }
		else { assert!(err(&t), "[H10.byte] more than one byte is diagnosed"); }
		return;
	}
	match escape(b[1]) {
		None => assert!(err(&t), "[H10.byte] an unknown escape is diagnosed"),
		Some(v) => {
			assert!(t.output.is_none() && forward(&t), "[H10.byte] the escape is consumed");
			let l = byte_state(t);
			let t = md(l.visit(&c3));
			if b[2] == b'\'' { assert!(matches!(tok(&t), Some(TokenKind::Literal(Literal::Byte(x))) if *x == v), "[H10.byte] an escape denotes its byte"); }
			else { assert!(err(&t), "[H10.byte] more than one byte is diagnosed"); }
			return;
		}
	}
}

//@ harness string_step property=H10,H17
//@ claim: one step of a string literal, for every byte after an ordinary byte and after a backslash: appends the byte it spells, closes, or is diagnosed
//@ functions: StringLiteral::visit, validate_escape
#[kani::proof] #[kani::unwind(4)]
fn string_step() {
	let b: [u8; 3] = kani::any();
	kani::assume(b[0] != b'"' && b[0] != b'\\');
	let s = src(&[b'"', b[0], b[1], b[2]]);
	let c0 = at(&s, 0); let c1 = at(&s, 1); let c2 = at(&s, 2); let c3 = at(&s, 3);
	let t = md(StringLiteral::at(&c0).visit(&c1));
	assert!(t.output.is_none() && forward(&t), "[H10.string] an ordinary byte is consumed");
	let l = string_state(t);
	let t = md(l.visit(&c2));
	if b[1] == b'"' {
		assert!(forward(&t) && st(&t.state) == ROOT && matches!(tok(&t), Some(TokenKind::Literal(Literal::String(x))) if x.len() == 1 && x[0] == b[0]), "[H10.string] the closing quote yields exactly the bytes spelled"); return;
	}
	assert!(t.output.is_none() && forward(&t), "[H10.string] any other byte continues the literal");
	let l = string_state(t);
	if b[1] != b'\\' { std::mem::forget(l); return; }
	let t = md(l.visit(&c3));
	match escape(b[2]) {
		None => assert!(err(&t) && forward(&t) && st(&t.state) == STRING, "[H10.string] an unknown escape is diagnosed"),
		Some(v) => {
			assert!(t.output.is_none() && forward(&t), "[H10.string] the escape is consumed");
			let l = string_state(t);
			let q = src(b"\"");
			let t = md(l.visit(&at(&q, 0)));
			assert!(matches!(tok(&t), Some(TokenKind::Literal(Literal::String(x))) if x.len() == 2 && x[0] == b[0] && x[1] == v), "[H10.string] an escape appends its byte");
			return;
		}
	}
}
//@ harness literal_eof property=H17
//@ claim: the end of the input inside a string or byte literal, in every state of it, is one diagnostic
//@ functions: StringLiteral::visit, ByteLiteral::visit
#[kani::proof] #[kani::unwind(4)]
fn literal_eof() {
	let b: u8 = kani::any();
	kani::assume(b != b'"' && b != b'\'');
	let s = src(&[b'"', b]);
	let c0 = at(&s, 0); let c1 = at(&s, 1); let c2 = at(&s, 2);
	let two: bool = kani::any();
	let t = if kani::any() {
		let l = StringLiteral::at(&c0);
		if two { md(string_state(md(l.visit(&c1))).visit(&c2)) } else { md(l.visit(&c2)) }
	} else {
		let l = ByteLiteral::at(&c0);
		if two { md(byte_state(md(l.visit(&c1))).visit(&c2)) } else { md(l.visit(&c2)) }
	};
	assert!(err(&t) && st(&t.state) == ROOT, "[H17.eof] an unclosed literal is diagnosed and lexing ends");
}


static mut PARSED: u8 = 0;
static mut PARSE_OK: bool = true;
fn stub_parse(_: &NumberLiteral, _: &Cursor) -> Result<Token, Error> {
	unsafe { PARSED += 1; }
	if unsafe { PARSE_OK } { Ok(Token { kind: TokenKind::Colon, pos: SourcePos::default() }) } else { Err(Error::unexpected_eof(SourcePos::default())) }
}
fn number_state(t: MT) -> NumberLiteral { match &t.state { State::NumberLiteral(l) => unsafe { std::ptr::read(l) }, _ => { assert!(false, "[H10.number] still in the literal"); loop {} } } }
//@ harness number_steps property=H10,H17
//@ claim: the extent of a number: digits, then optionally a dot and digits, then optionally e and digits; it ends before the first byte that cannot continue it, which is kept; a dot or e not followed by a digit is a diagnostic; the end of the input ends it like any other byte
//@ bound: a digit, three arbitrary bytes and the end of the input (every state of the literal is reached)
//@ functions: NumberLiteral::visit
//@ assumes: NumberLiteral::parse (the conversion of the text, done by std) may succeed or fail
#[kani::proof] #[kani::unwind(5)] #[kani::stub(NumberLiteral::parse, stub_parse)]
fn number_steps() {
	let b: [u8; 3] = kani::any();
	unsafe { PARSE_OK = kani::any(); }
	let s = src(&[b'1', b[0], b[1], b[2]]);
	let mut l = NumberLiteral::at(&at(&s, 0));
	let mut state = 0u8;
	let mut i = 0;
	while i < 4 {
		let eof = i == 3;
		let cur = at(&s, 1 + i);
		let t = md(l.visit(&cur));
		let c = if eof { 0 } else { b[i] };
		let next = match (state, c) {
			(0, b'0'..=b'9') => 0, (0, b'.') => 1, (1 | 2, b'0'..=b'9') => 2, (3 | 4, b'0'..=b'9') => 4, (0 | 1 | 2, b'e' | b'E') => 3,
			(1 | 3, _) => 9, _ => 8,
		};
		if next == 9 { assert!(err(&t) && unsafe { PARSED == 0 } && st(&t.state) == ROOT, "[H10.number] a dot or e without digits is diagnosed"); return; }
		if next == 8 {
			assert!(unsafe { PARSED } == 1 && st(&t.state) == ROOT, "[H10.number] the number ends before a byte that cannot continue it");
			if unsafe { PARSE_OK } { assert!(tok(&t).is_some() && resume(&t), "[H10.number] the number is one token, the next byte is kept"); }
			else { assert!(err(&t), "[H10.number] a number that does not fit is diagnosed"); }
			return;
		}
		assert!(t.output.is_none() && forward(&t), "[H10.number] the byte continues the number");
		state = next;
		l = number_state(t);
		i += 1;
	}
}

//@ harness comment_step property=H10,H17
//@ claim: a comment ends with its line and yields nothing, for every byte and the end of the input
//@ functions: Comment::visit
#[kani::proof] #[kani::unwind(4)]
fn comment_step() {
	let (s, c) = any_input();
	let cur = at(&s, 1);
	let t = md(comment::Comment::from(Root).visit(&cur));
	assert!(t.output.is_none(), "[H10.comment] a comment yields nothing");
	match c {
		None => (),
		Some(b'\n') => assert!(st(&t.state) == ROOT, "[H10.comment] the comment ends with its line"),
		Some(_) => assert!(st(&t.state) == COMMENT && forward(&t), "[H10.comment] any other byte belongs to the comment"),
	}
}

//@ harness word_step property=H10,H17
//@ claim: a word goes on exactly over letters, digits and underscores, and is one token with the next byte kept, for every byte and the end of the input
//@ functions: Word::visit, IsWord
#[kani::proof] #[kani::unwind(24)]
#[kani::stub(word::to_token, stub_to_token)]
fn word_step() {
	let (s, c) = any_input();
	let cur = at(&s, 1);
	let mut interner = std::mem::ManuallyDrop::new(SymbolInterner::new());
	let t = md(word::Word::at(&at(&s, 0)).visit(&cur, &mut interner));
	match c {
		Some(b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_') => assert!(t.output.is_none() && forward(&t) && st(&t.state) == WORD, "[H10.word] letters, digits and underscores continue the word"),
		_ => assert!(tok(&t).is_some() && resume(&t) && st(&t.state) == ROOT && unsafe { WORDLEN == 1 && WORD0 == b'z' }, "[H10.word] anything else ends it, the token is the whole word"),
	}
}
static mut WORDLEN: usize = 0;
static mut WORD0: u8 = 0;
fn stub_to_token(word: &[u8], _: &mut SymbolInterner) -> TokenKind { unsafe { WORDLEN = word.len(); WORD0 = word[0]; } TokenKind::Colon }
