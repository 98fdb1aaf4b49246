//! Monitor of the explorers: instrumented allocator, violation records, element types.
#![allow(static_mut_refs)]
pub mod elems;
pub mod mon;
pub mod point;
pub mod rep;
#[cfg(not(miri))]
pub mod step;
#[cfg(miri)]
pub mod step {
    pub struct Busy(());
    pub fn busy() -> Busy {
        Busy(())
    }
}

// Miri has its own monitor of memory.
#[cfg_attr(not(miri), global_allocator)]
static GLOBAL: mon::Mon = mon::Mon;
