use crate::engine::*;
pub mod attrs;
pub mod cli;
pub mod codegen;
pub mod derive;
pub mod distill;
pub mod distill2;
pub mod regexp;
pub mod registry;
pub mod syntax;
pub mod values;
pub static ALL: &[Prop] = &[
    distill::P01, distill::P02, distill::P03, distill::P04,
    distill2::P05, distill2::P06, distill2::P07, distill2::P08, distill2::P09, distill2::P10, distill2::P11, distill2::P12, distill2::P13,
    syntax::P14, values::P15, values::P16, values::P17, values::P18, syntax::P19, syntax::P20, syntax::P21, registry::P22, syntax::P23, regexp::P24, regexp::P26, derive::P27, derive::P28, derive::P29, cli::P30, cli::P31, codegen::P32, attrs::P33,
];
