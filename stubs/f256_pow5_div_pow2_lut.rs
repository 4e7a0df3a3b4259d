//! Placeholder: the real src/lib.rs of this crate is missing from /repo.
//! It has no table. It only lets the crate `f256` compile; every call panics.

pub fn lookup_pow5_div_pow2(_idx: usize) -> (u128, u128, u128, u128) {
    panic!("left out: /repo/pow5_div_pow2_lut/src is missing")
}
