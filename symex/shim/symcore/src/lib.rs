//! Symbolic core shared by the stand-ins for amcl_wrapper and merlin and by the harness.
//! Single-threaded by design: one global arena of hash-consed terms, one exploration engine.
pub mod fr;
pub mod state;
pub use fr::Fr;
pub use state::*;

/// what fills the rest of a symbol's encoding (so that a cut is seen)
pub fn filler(id: u32, j: usize) -> u8 {
    0x80 | (id.wrapping_mul(0x9E3779B1).rotate_left(j as u32) as u8).wrapping_add(j as u8) & 0x7f
}
