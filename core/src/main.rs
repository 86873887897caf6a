//! Properties of the modules of /repo that do not need `spaces`. The modules are compiled
//! from /repo/src, never from copies; this root mirrors /repo/src/lib.rs for them.
#![allow(dead_code, unused_imports, unused_macros, unexpected_cfgs, non_local_definitions)]

extern crate failure;
extern crate num;
extern crate rand;
extern crate rand_distr;
extern crate special_fun;

#[path = "/repo/src/consts.rs"]
mod consts;
#[path = "/repo/src/utils.rs"]
mod utils;

#[macro_use]
#[path = "/repo/src/params/mod.rs"]
pub mod params;

#[path = "/repo/src/normal"]
pub mod normal {
    #[path = "linalg.rs"]
    pub(crate) mod linalg;
}

mod c_constraints;
mod c_params;
mod c_combinatorics;
mod c_linalg;

fn main() {
    let props = vec![
        c_constraints::predicates(),
        c_constraints::reports(),
        c_params::params(),
        c_combinatorics::combinatorics(),
        c_linalg::linalg(),
    ];
    pbt::run(props.into_iter().flat_map(|p| {
        let quick = if p.id == "C03" { 60 } else { 30 };
        pbt::scaled(vec![p], quick, 20)
    }).collect())
}
