pub mod alloc;
pub mod engine;
pub mod guided;
pub mod props;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
