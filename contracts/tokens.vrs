#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
verus! {
@include std_model.vrs
@include tokens_core.vrs
broadcast use {stdm::axiom_into_seq_option, stdm::axiom_into_iter};

@include tokens_fns.vrs
fn main() {}
}
