#[cfg(feature = "c11")]
pub use super::indexed_arena::{IndexedArena, IndexedVec};
