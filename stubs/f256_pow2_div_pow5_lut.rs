//! Placeholder: the real src/lib.rs of this crate is missing from /repo.
//! It has no table. It only lets the crate `f256` compile; every call panics.

pub fn lookup_pow2_div_pow5(_idx: usize) -> (u128, u128, u128, u128) {
    panic!("left out: /repo/pow2_div_pow5_lut/src is missing")
}
