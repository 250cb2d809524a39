pub mod alloc;
pub mod alpha;
pub mod engine;
pub mod env;
pub mod obs;
pub mod refmath;
pub mod text;

#[global_allocator]
static GLOBAL: alloc::Alloc = alloc::Alloc;
