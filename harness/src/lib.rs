#![feature(alloc_error_hook)]
pub mod alloc;
pub mod big;
pub mod custom;
pub mod deep;
pub mod engine;
pub mod gen;
pub mod low;
pub mod model;
pub mod starved;
pub mod store;
pub mod subject;
pub mod universal;

#[global_allocator]
static GLOBAL: alloc::GuardAlloc = alloc::GuardAlloc;
