//! Placeholder: the real src/lib.rs of this crate is missing from /repo.
//! It has no table. It only lets the crate `f256` compile; every call panics.

pub fn get_pow2_div_pow10_params(_exp2: i32) -> (usize, (u32, u32)) {
    panic!("left out: /repo/pow2_div_pow10_lut/src is missing")
}

pub fn lookup_pow2_div_pow10(_segment_idx: usize, _chunk_idx: usize) -> (u128, u128, u128) {
    panic!("left out: /repo/pow2_div_pow10_lut/src is missing")
}
