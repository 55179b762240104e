#![allow(deprecated, non_snake_case, dead_code, unused)]
macro_rules! entries {
    ($(fn $name:ident() $body:block)*) => {
        $(#[no_mangle] pub fn $name() $body)*
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($name), $name as fn())),*]
        }
    };
}
pub mod vh;
pub mod h_codec;
pub mod h_rlwe;
pub mod h_rgsw;
pub mod h_oram;
pub mod h_hash;
pub mod h_lwe;
pub mod h_ctx;
pub mod h_tree;
pub mod os;
pub mod h_prog;
pub fn find(name: &str) -> Option<fn()> {
    for t in [h_codec::table(), h_rlwe::table(), h_rgsw::table(), h_oram::table(), h_hash::table(), h_lwe::table(), h_ctx::table(), h_tree::table(), h_prog::table()] {
        for (n, f) in t {
            if n == name {
                return Some(f);
            }
        }
    }
    None
}
