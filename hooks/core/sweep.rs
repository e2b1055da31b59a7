#[cfg(feature = "c10")]
pub use super::count_by_dir::CountByDir;
#[cfg(any(feature = "c05", feature = "c10"))]
pub use super::direction::DirectionIndex;
#[cfg(feature = "c10")]
pub use super::direction::verif as direction;
