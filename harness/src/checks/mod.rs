pub use crate::dom::{self, Depth};
pub use crate::engine::*;
pub use crate::model::*;
pub use crate::systems::*;
pub use std::sync::Arc;

pub mod custom;
pub mod value;
#[cfg(feature = "alloc")]
pub mod cross;
#[cfg(feature = "alloc")]
pub mod interfere;
#[cfg(feature = "alloc")]
pub mod leak;
#[cfg(all(feature = "alloc", feature = "c25"))]
pub mod copies;
#[cfg(not(feature = "alloc"))]
pub mod noalloc;
pub mod strings;

#[cfg(feature = "alloc")]
pub fn plan(id: &str, tier: Tier) -> Option<Plan> {
    let _ = tier;
    Some(match id {
        #[cfg(feature = "c01")]
        "C01" => strings::plan(tier),
        #[cfg(feature = "c03")]
        "C03" => value::c03(tier),
        #[cfg(feature = "c04")]
        "C04" => value::c04(tier),
        #[cfg(feature = "c05")]
        "C05" => value::c05(tier),
        #[cfg(feature = "c06")]
        "C06" => value::c06(tier),
        #[cfg(feature = "c07")]
        "C07" => value::c07(tier),
        #[cfg(feature = "c08")]
        "C08" => value::c08(tier),
        #[cfg(feature = "c09")]
        "C09" => value::c09(tier),
        #[cfg(feature = "c10")]
        "C10" => value::c10(tier),
        #[cfg(feature = "c11")]
        "C11" => value::c11(tier),
        #[cfg(feature = "c12")]
        "C12" => custom::plan_compose(tier),
        #[cfg(feature = "c13")]
        "C13" => cross::plan_errors(tier),
        #[cfg(feature = "c14")]
        "C14" => cross::plan_types(tier),
        #[cfg(feature = "c16")]
        "C16" => cross::plan_unique(tier),
        #[cfg(feature = "c17")]
        "C17" => cross::plan_heap(tier),
        #[cfg(feature = "c18")]
        "C18" => interfere::plan(tier),
        #[cfg(feature = "c19")]
        "C19" => cross::plan_paths(tier),
        #[cfg(feature = "c20")]
        "C20" => cross::plan_pairs(tier),
        #[cfg(feature = "c21")]
        "C21" => custom::plan_total(tier),
        #[cfg(feature = "c22")]
        "C22" => custom::plan_describe(tier),
        #[cfg(feature = "c24")]
        "C24" => leak::plan(tier),
        #[cfg(feature = "c25")]
        "C25" => copies::plan(tier),
        _ => return None,
    })
}

#[cfg(not(feature = "alloc"))]
pub fn plan(id: &str, tier: Tier) -> Option<Plan> {
    let _ = tier;
    Some(match id {
        #[cfg(feature = "c15")]
        "C15" => noalloc::plan(tier),
        _ => return None,
    })
}
