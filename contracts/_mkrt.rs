/// A runtime with nothing in it.
pub fn mkrt() -> std::mem::ManuallyDrop<crate::runtime::Runtime> {
	std::mem::ManuallyDrop::new(crate::runtime::Runtime {
		stack: crate::runtime::mem::Stack::new(100), arguments: Vec::new(), std: crate::runtime::Value::Nil,
		interner: crate::symbol::Interner::new(), modules: kstd::collections::HashMap::new(), args: crate::runtime::Value::Nil,
	})
}
pub fn mkpos() -> crate::runtime::SourcePos { crate::runtime::SourcePos { line: 1, column: 1, path: crate::symbol::Symbol::default() } }
