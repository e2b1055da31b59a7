#[cfg(feature = "c10")]
pub fn get_random_rotation_matrix(rng: &mut rand::rngs::StdRng) -> [[f64; 3]; 3] {
    super::get_random_rotation_matrix(rng)
}
#[cfg(feature = "c10")]
pub fn multiply_by_matrix(v: &mut crate::units::MVec, m: &[[f64; 3]; 3]) {
    super::multiply_by_matrix(v, m)
}
#[cfg(feature = "c10")]
pub fn direction_bins() -> Vec<(usize, Vec<[f64; 3]>)> {
    use super::healpix::*;
    vec![
        (16, DIRECTION_BINS_16.to_vec()),
        (21, DIRECTION_BINS_21.to_vec()),
        (32, DIRECTION_BINS_32.to_vec()),
        (64, DIRECTION_BINS_64.to_vec()),
        (84, DIRECTION_BINS_84.to_vec()),
    ]
}
