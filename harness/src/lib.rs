#![allow(clippy::all, warnings)]
#[macro_use]
pub mod nd;
pub mod tr;
pub mod arena;
pub mod arena_iter;
#[cfg(not(feature = "serde"))]
pub mod limit;
pub mod own;
pub mod own_more;
pub mod vec;
pub mod chain;
pub mod surject;
pub mod ord;
pub mod ptr;
#[cfg(feature = "serde")]
#[path = "ptr.rs"]
pub mod ptr_serde;
#[cfg(feature = "serde")]
pub mod sd;
#[cfg(not(kani))]
pub mod checking_alloc;
#[cfg(all(not(kani), not(miri)))]
#[global_allocator]
static GLOBAL: checking_alloc::Checking = checking_alloc::Checking;

#[cfg(not(kani))]
pub const TABLES: &[&[(&str, fn())]] = &[
    arena::TABLE,
    arena_iter::TABLE,
    #[cfg(not(feature = "serde"))]
    limit::TABLE,
    own::TABLE,
    own_more::cg::TABLE,
    own_more::cn::TABLE,
    own_more::su::TABLE,
    own_more::od::TABLE,
    vec::TABLE,
    chain::g::TABLE,
    chain::n::TABLE,
    chain::g::EXTRA,
    chain::n::EXTRA,
    chain::g::NO_GROWTH,
    chain::n::NO_GROWTH,
    surject::TABLE,
    surject::NO_GROWTH,
    ord::g::TABLE,
    ord::g::NO_GROWTH,
    ord::u::TABLE,
    ord::u::NO_GROWTH,
    ptr::REAL_TABLE,
    #[cfg(feature = "serde")]
    ptr_serde::REAL_TABLE,
    #[cfg(feature = "serde")]
    sd::TABLE,
];
