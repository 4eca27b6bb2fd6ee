//! Specification trees and the catalogue of public operations.
pub mod cat;
pub mod show;
pub mod store;
pub mod tree;
pub use tree::T;

/// Called from every callback the catalogue passes into the code under test.
static mut TICK: fn(u32) = no_tick;
fn no_tick(_: u32) {}
pub fn set_tick(f: fn(u32)) {
    unsafe { TICK = f }
}
#[inline(never)]
pub fn tick(kind: u32) {
    unsafe { TICK(kind) }
}
pub const BORROW: u32 = 1;
pub const CALLBACK: u32 = 2;
pub const ITER: u32 = 3;
pub const CONV: u32 = 4;
pub const WRITER: u32 = 5;
pub const HASHER: u32 = 6;
