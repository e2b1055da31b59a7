#[cfg(feature = "c01")]
pub use super::file_distribution::{
    get_rank_input_assignment_for_rank, get_rank_output_assignment_for_rank, RankAssignment, Region,
};
