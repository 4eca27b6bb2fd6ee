//! syn for macros that run as ordinary code: where it takes tokens from the
//! compiler it takes them from proc_macro2.
pub use real_syn::*;
pub use real_syn::parse2 as parse;

#[macro_export]
macro_rules! parse_macro_input {
    ($tokens:ident as $ty:ty) => {
        match $crate::parse::<$ty>($tokens) {
            Ok(data) => data,
            Err(e) => return e.to_compile_error().into(),
        }
    };
    ($tokens:ident with $parser:path) => {
        match $crate::parse::Parser::parse2($parser, $tokens) {
            Ok(data) => data,
            Err(e) => return e.to_compile_error().into(),
        }
    };
    ($tokens:ident) => {
        $crate::parse_macro_input!($tokens as _)
    };
}
