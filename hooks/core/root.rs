#[cfg(any(feature = "c05", feature = "c09"))]
pub use crate::extent::get_extent_from_min_and_max_reduce;
#[cfg(any(feature = "c05", feature = "c09"))]
pub use crate::extent::Extent;
#[cfg(any(feature = "c05", feature = "c06"))]
pub use crate::peano_hilbert::{PeanoKey2d, PeanoKey3d, NUM_BITS_PER_DIMENSION_2D, NUM_BITS_PER_DIMENSION_3D};
#[cfg(feature = "c05")]
pub use crate::quadtree::verif as quadtree;
