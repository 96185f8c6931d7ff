//@ module: src/semantic/program/mod.rs
// H11, H01: the operator a token spells is the operation the runtime performs.
use super::*;
use crate::syntax::lexer::Operator as O;

/// Every operator token, in the order of the language's table.
const ALL: [O; 18] = [O::Plus, O::Minus, O::Times, O::Div, O::Mod, O::Equals, O::NotEquals, O::Greater, O::GreaterEquals, O::Lower, O::LowerEquals, O::And, O::Or, O::Concat, O::Not, O::Dot, O::Assign, O::Try];

//@ harness binary_operators property=H11,H01
//@ claim: each binary operator token becomes its own operation, through the syntax tree to the program: none is swapped or merged
//@ functions: ast::BinaryOp::from, program::BinaryOp::from
#[kani::proof] #[kani::unwind(2)]
fn binary_operators() {
	let i: usize = kani::any();
	kani::assume(i < 14);
	let p = BinaryOp::from(ast::BinaryOp::from(ALL[i]));
	let want = match i {
		0 => matches!(p, BinaryOp::Plus), 1 => matches!(p, BinaryOp::Minus), 2 => matches!(p, BinaryOp::Times), 3 => matches!(p, BinaryOp::Div), 4 => matches!(p, BinaryOp::Mod),
		5 => matches!(p, BinaryOp::Equals), 6 => matches!(p, BinaryOp::NotEquals), 7 => matches!(p, BinaryOp::Greater), 8 => matches!(p, BinaryOp::GreaterEquals),
		9 => matches!(p, BinaryOp::Lower), 10 => matches!(p, BinaryOp::LowerEquals), 11 => matches!(p, BinaryOp::And), 12 => matches!(p, BinaryOp::Or), _ => matches!(p, BinaryOp::Concat),
	};
	assert!(want, "[H11.operator] an operator denotes its own operation");
}
//@ harness unary_operators property=H11,H01
//@ claim: each prefix and postfix operator token becomes its own operation
//@ functions: ast::UnaryOp::from, program::UnaryOp::from
#[kani::proof] #[kani::unwind(2)]
fn unary_operators() {
	assert!(matches!(UnaryOp::from(ast::UnaryOp::from(O::Minus)), UnaryOp::Minus), "[H11.operator] minus");
	assert!(matches!(UnaryOp::from(ast::UnaryOp::from(O::Not)), UnaryOp::Not), "[H11.operator] not");
	assert!(matches!(UnaryOp::from(ast::UnaryOp::from(O::Try)), UnaryOp::Try), "[H11.operator] try");
}
//@ harness operator_classes property=H11
//@ claim: the operators of each precedence level are exactly those of the language: factors * / %, terms + -, comparisons < <= > >=, equality == !=, prefixes - not
//@ functions: Operator::is_factor, Operator::is_term, Operator::is_comparison, Operator::is_equality, Operator::is_prefix
#[kani::proof] #[kani::unwind(2)]
fn operator_classes() {
	let i: usize = kani::any();
	kani::assume(i < 18);
	let o = ALL[i];
	assert!(o.is_factor() == (i >= 2 && i <= 4), "[H11.level] factors");
	assert!(o.is_term() == (i <= 1), "[H11.level] terms");
	assert!(o.is_comparison() == (i >= 7 && i <= 10), "[H11.level] comparisons");
	assert!(o.is_equality() == (i == 5 || i == 6), "[H11.level] equality");
	assert!(o.is_prefix() == (i == 1 || i == 14), "[H11.level] prefixes");
}
