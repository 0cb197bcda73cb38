//! Property-based checks for treena.
pub mod base;
pub mod case;
#[cfg(feature = "conc")]
pub mod conc;
pub mod engine;
pub mod exer;
pub mod extra;
pub mod hist;
pub mod mem;
pub mod model;
pub mod rec;
pub mod run;
pub mod side;
pub mod trav;
pub mod types;

#[global_allocator]
static ALLOC: base::CountingAlloc = base::CountingAlloc;
