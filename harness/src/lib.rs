#![allow(clippy::all)]
//! Harnesses: each is run by the symbolic executor over all of its inputs, and by the replay binary on concrete ones.
pub mod gram;
pub mod misc;
pub mod parse;
pub mod rex;
#[cfg(feature = "rx")]
pub mod rx;
pub mod sym;
pub mod tok;
#[cfg(not(feature = "rx"))]
use {misc::*, parse::*, tok::*};
#[cfg(feature = "rx")]
use rx::*;

macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        pub static HARNESSES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n as extern "C-unwind" fn())),*];
    };
}
macro_rules! all {
    ($($more:ident),*) => {
        harnesses!(
            h_parse, h_nest, h_abs, h_rec, h_words, h_tokenizer, h_combined, h_mixin, h_wrap, h_mapper_dup, h_nested,
            h_tokset, h_position, h_stream, h_tree, h_print, h_history, h_variant, h_agree, h_bytes, h_cache, h_leftrec, h_unset, h_known $(, $more)*
        );
    };
}
#[cfg(feature = "rx")]
harnesses!(h_pattern, h_pattern_any, h_field, h_rx, h_json);
// the debugging entry points of the parsers exist in debug builds only
#[cfg(all(debug_assertions, not(feature = "rx")))]
all!(h_debug);
#[cfg(all(not(debug_assertions), not(feature = "rx")))]
all!();
