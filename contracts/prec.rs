//@ module: src/syntax/parser/mod.rs
// H11: precedence and associativity.
use super::*;
use crate::symbol::Symbol;
use ast::{Expr as X, BinaryOp as B};
use std::mem::ManuallyDrop;

pub const fn csym(k: u32) -> Symbol { unsafe { std::mem::transmute::<u32, Symbol>(k) } }
const ALL: [Operator; 14] = [Operator::Plus, Operator::Minus, Operator::Times, Operator::Div, Operator::Mod, Operator::Equals, Operator::NotEquals, Operator::Greater, Operator::GreaterEquals, Operator::Lower, Operator::LowerEquals, Operator::And, Operator::Or, Operator::Concat];
/// The binding strength of each operator of ALL.
fn level(i: usize) -> u8 { match i { 0 | 1 => 5, 2..=4 => 6, 5 | 6 => 2, 7..=10 => 3, 11 => 1, 12 => 0, _ => 4 } }
fn op(b: &B) -> usize {
	match b { B::Plus => 0, B::Minus => 1, B::Times => 2, B::Div => 3, B::Mod => 4, B::Equals => 5, B::NotEquals => 6, B::Greater => 7, B::GreaterEquals => 8, B::Lower => 9, B::LowerEquals => 10, B::And => 11, B::Or => 12, B::Concat => 13 }
}
fn pos(k: u32) -> SourcePos { SourcePos { line: k, column: 0, path: csym(0) } }
/// An operand, then an operator and an operand, repeated.
pub struct Toks { i: u32, ops: &'static [usize] }
impl Iterator for Toks {
	type Item = Token;
	fn next(&mut self) -> Option<Token> {
		self.i += 1;
		let k = self.i;
		if k as usize > 2 * self.ops.len() + 1 { return None; }
		let kind = if k % 2 == 1 { TokenKind::Comma } else { TokenKind::Operator(ALL[self.ops[(k / 2 - 1) as usize]]) };
		Some(Token { kind, pos: pos(k) })
	}
}
impl<I, E> Parser<I, E> where I: Iterator<Item = Token>, E: ErrorReporter {
	/// An operand, as the level above sees it.
	fn operand(&mut self) -> sync::Result<X, Error> {
		let k = match &self.token { Some(t) => t.pos.line, None => panic!("MODEL: operand expected") };
		std::mem::forget(self.token.take());
		self.step();
		Ok(X::Self_ { pos: pos(k) })
	}
}
fn leaf(x: &X, k: u32) -> bool { matches!(x, X::Self_ { pos } if pos.line == k) }
/// x is what operators ops[from..to] make of their operands.
fn tree(x: &X, ops: &'static [usize], from: usize, to: usize) -> bool {
	if from == to { return leaf(x, 2 * from as u32 + 1); }
	let mut m = from;
	let mut i = from + 1;
	while i < to { if level(ops[i]) <= level(ops[m]) { m = i; } i += 1; }
	match x { X::BinaryOp { left, op: o, right, .. } => op(o) == ops[m] && tree(left, ops, from, m) && tree(right, ops, m + 1, to), _ => false }
}
fn chain(ops: &'static [usize]) {
	let mut p = ManuallyDrop::new(Parser::new(Toks { i: 0, ops }, |e: Error| std::mem::forget(e)));
	let x = ManuallyDrop::new(p.parse_expression());
	match &*x { Ok(x) => assert!(tree(x, ops, 0, ops.len()), "[H11.precedence] the tighter operator takes the operands around it, and equals apply from left to right"), Err(_) => assert!(false, "[H11.expression] an expression parses") }
}
//@ harness loosest_first property=H11
//@ claim: a chain of operators, each binding tighter than the one before (or, and, ==, >, ++, +, *), nests to the right
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(9)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn loosest_first() { chain(&[12, 11, 5, 7, 13, 0, 2]) }
//@ harness tightest_first property=H11
//@ claim: a chain of operators, each looser than the one before, nests to the left
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(9)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn tightest_first() { chain(&[3, 1, 13, 8, 6, 11, 12]) }
//@ harness same_factor property=H11 tier=thorough
//@ claim: operators of the same strength apply from left to right
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(6)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn same_factor() { chain(&[2, 3, 4, 2]) }
//@ harness same_term property=H11 tier=thorough
//@ claim: operators of the same strength apply from left to right
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn same_term() { chain(&[0, 1, 0]) }
//@ harness same_concat property=H11 tier=thorough
//@ claim: operators of the same strength apply from left to right
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(4)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn same_concat() { chain(&[13, 13]) }
//@ harness same_comparison property=H11 tier=thorough
//@ claim: operators of the same strength apply from left to right
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(6)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn same_comparison() { chain(&[7, 8, 9, 10]) }
//@ harness same_equality property=H11 tier=thorough
//@ claim: operators of the same strength apply from left to right
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(5)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn same_equality() { chain(&[5, 6, 5]) }
//@ harness same_and property=H11 tier=thorough
//@ claim: operators of the same strength apply from left to right
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(4)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn same_and() { chain(&[11, 11]) }
//@ harness same_or property=H11 tier=thorough
//@ claim: operators of the same strength apply from left to right
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(4)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn same_or() { chain(&[12, 12]) }
//@ harness mixed property=H11 tier=thorough
//@ claim: tighter operators on both sides of a looser one
//@ functions: Parser::parse_expression, Parser::parse_binop, Parser::step, Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, ast::BinaryOp::from
//@ assumes: an operand is what parse_prefix takes: one token here
//@ bound: this chain of operators
#[kani::proof] #[kani::unwind(7)]
#[kani::stub(Parser::parse_prefix, Parser::operand)]
fn mixed() { chain(&[0, 4, 5, 1, 3]) }
