pub mod alloc;
#[macro_use]
pub mod engine;
#[macro_use]
pub mod model;
pub mod gen;
pub mod guided;
pub mod hints;
pub mod props;
pub mod rio;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
