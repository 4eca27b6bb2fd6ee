//! The compiler's side of procedural macros, for macros that run as ordinary
//! code: tokens that nobody but the caller sees.
pub use proc_macro2::*;
