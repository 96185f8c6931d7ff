//! Stand-in for gc_derive: `Trace` and `Finalize` are auto traits in the `gc` stand-in,
//! so the derives generate nothing (in particular no `Drop` impl).
use proc_macro::TokenStream;

#[proc_macro_derive(Trace, attributes(unsafe_ignore_trace))]
pub fn derive_trace(_: TokenStream) -> TokenStream { TokenStream::new() }

#[proc_macro_derive(Finalize)]
pub fn derive_finalize(_: TokenStream) -> TokenStream { TokenStream::new() }
