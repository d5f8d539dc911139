//! The monitors over unusual declarations (C22).
#![allow(dead_code, unused_imports, clippy::all)]
pub mod types {
    use mirror_mirror::{FromReflect, Reflect, Value};
    use mmv_core::model::*;
    use mmv_core::rng::Rng;
    use mmv_core::zoo::*;
    use mmv_core::{with_glam, with_macaw};
    use std::any::type_name;
    use std::collections::BTreeMap;
    use std::num::*;
    use std::ops::*;
    use std::time::Duration;
    include!(env!("MMV_ZOO"));
}
#[global_allocator]
static ALLOC: mmv_core::mon_conc::Counting = mmv_core::mon_conc::Counting;
fn main() {
    std::process::exit(mmv_core::cli::main(types::registry()));
}
