#[cfg(feature = "c15")]
pub use crate::peano_hilbert::PeanoKey2d;
#[cfg(feature = "c17")]
pub fn iter_periodic_images(
    box_: &crate::prelude::SimulationBox,
    p: crate::units::VecLength,
) -> impl Iterator<Item = (crate::dimension::ActiveWrapType, crate::units::VecLength)> + '_ {
    box_.iter_periodic_images(p)
}
#[cfg(feature = "c17")]
pub use crate::quadtree::{radius_search::bounding_boxes_overlap_periodic, Node, QuadTreeConfig};
#[cfg(feature = "c21")]
pub use crate::parameter_plugin::{parameter_file_contents::Override, ParameterFileContents};
#[cfg(feature = "c21")]
pub fn performance() -> crate::performance::Performance {
    Default::default()
}
#[cfg(feature = "c27")]
pub mod scalings {
    use crate::parameters::Cosmology;
    use crate::units::*;
    /// A length, an area, a density and a vector in comoving units as physical ones, in SI.
    #[inline(never)]
    pub fn physical(kiloparsec: f64, c: &Cosmology) -> [f64; 6] {
        let l = ComovingLength::comoving_kiloparsec(kiloparsec);
        let lh = ComovingLengthTimesH::weird_cosmological_notation_kiloparsec(kiloparsec);
        let m = Mass::kilograms(1.0);
        let v = dvec3::ComovingLength::comoving_kiloparsec(kiloparsec, 2.0 * kiloparsec, -kiloparsec);
        let v: Vec3Length = v.make_non_cosmological(c);
        let l1: Length = l.make_non_cosmological(c);
        let l2: Length = lh.make_non_cosmological(c);
        let d: Density = (m / (lh * lh * lh)).make_non_cosmological(c);
        let same: Length = Length::kiloparsec(kiloparsec).make_non_cosmological(c);
        [l1.in_meters(), l2.in_meters(), d.value_unchecked(), v.y().in_meters(), v.z().in_meters(), same.in_meters()]
    }
    /// Internal energy per mass (SI) of a temperature, and the temperature of that.
    #[inline(never)]
    pub fn internal_energy(kelvins: f64, weight: f64) -> (f64, f64) {
        let e = Temperature::kelvins(kelvins).to_internal_energy(Dimensionless::dimensionless(weight));
        (e.value_unchecked(), e.to_temperature(Dimensionless::dimensionless(weight)).in_kelvins())
    }
    /// Internal energy density (SI) of hydrogen, and the temperature of that.
    #[inline(never)]
    pub fn energy_density(kelvins: f64, ionized: f64, density: f64) -> (f64, f64) {
        let d = Density::grams_per_cubic_centimeters(density);
        let x = Dimensionless::dimensionless(ionized);
        let e = EnergyDensity::from_temperature_hydrogen_only(Temperature::kelvins(kelvins), x, d);
        (e.value_unchecked(), Temperature::from_internal_energy_density_hydrogen_only(e, x, d).in_kelvins())
    }
    fn num(x: f64) -> Dimensionless {
        Dimensionless::dimensionless(x)
    }
    /// a, h and z
    #[inline(never)]
    pub fn facts(c: &Cosmology) -> [f64; 3] {
        [c.scale_factor().value_unchecked(), c.little_h().value_unchecked(), c.redshift().value_unchecked()]
    }
    #[inline(never)]
    pub fn seconds_between(c: &Cosmology, a0: f64, a1: f64) -> f64 {
        c.time_difference_between_scalefactors(num(a0), num(a1)).in_seconds()
    }
    #[inline(never)]
    pub fn scale_factor_after(c: &Cosmology, seconds: f64) -> f64 {
        match c {
            Cosmology::Cosmological { a, h, params: Some(p) } => p
                .get_scalefactor_from_scalefactor_and_time_difference(num(*a), num(*h), Time::seconds(seconds))
                .value_unchecked(),
            _ => panic!("no parameters"),
        }
    }
    #[inline(never)]
    pub fn written(seconds: f64, c: &Cosmology) -> serde_yaml::Value {
        serde_yaml::to_value(crate::time_spec::TimeSpec::new(Time::seconds(seconds), c)).unwrap()
    }
}
#[cfg(feature = "c28")]
pub mod boxes {
    use crate::dimension::{Dimension as _, ThreeD, TwoD};
    use crate::domain::extent::{Extent2d, Extent3d};
    use crate::extent::Extent;
    use crate::units::*;
    pub type Corners = ([f64; 3], [f64; 3], [f64; 3]);
    fn v3(x: [f64; 3]) -> Vec3Length {
        Vec3Length::meters(x[0], x[1], x[2])
    }
    fn v2(x: [f64; 3]) -> Vec2Length {
        Vec2Length::meters(x[0], x[1])
    }
    fn a3(x: Vec3Length) -> [f64; 3] {
        [x.x().in_meters(), x.y().in_meters(), x.z().in_meters()]
    }
    fn a2(x: Vec2Length) -> [f64; 3] {
        [x.x().in_meters(), x.y().in_meters(), 0.0]
    }
    fn out3(e: &Extent3d) -> Corners {
        (a3(e.min), a3(e.max), a3(e.center))
    }
    fn out2(e: &Extent2d) -> Corners {
        (a2(e.min), a2(e.max), a2(e.center))
    }
    fn b3(min: [f64; 3], max: [f64; 3]) -> Extent3d {
        Extent3d::from_min_max(v3(min), v3(max))
    }
    fn b2(min: [f64; 3], max: [f64; 3]) -> Extent2d {
        Extent2d::from_min_max(v2(min), v2(max))
    }
    /// min, max and centre of the bounding box of points, of the parts of a box, ...
    #[inline(never)]
    pub fn around(three: bool, points: &[[f64; 3]]) -> Option<Corners> {
        if three {
            let p: Vec<_> = points.iter().map(|p| v3(*p)).collect();
            Extent3d::from_positions(p.iter()).map(|e| out3(&e))
        } else {
            let p: Vec<_> = points.iter().map(|p| v2(*p)).collect();
            Extent2d::from_positions(p.iter()).map(|e| out2(&e))
        }
    }
    #[inline(never)]
    pub fn around_all(three: bool, boxes: &[([f64; 3], [f64; 3])]) -> Option<Corners> {
        if three {
            let p: Vec<_> = boxes.iter().map(|p| b3(p.0, p.1)).collect();
            Extent3d::get_all_encompassing(p.iter()).map(|e| out3(&e))
        } else {
            let p: Vec<_> = boxes.iter().map(|p| b2(p.0, p.1)).collect();
            Extent2d::get_all_encompassing(p.iter()).map(|e| out2(&e))
        }
    }
    /// the box, its volume, its longest side, its parts
    #[inline(never)]
    pub fn facts(three: bool, min: [f64; 3], max: [f64; 3]) -> (Corners, f64, f64, Vec<Corners>) {
        if three {
            let b = b3(min, max);
            (out3(&b), b.volume().value_unchecked(), b.max_side_length().in_meters(), b.get_quadrants().iter().map(out3).collect())
        } else {
            let b = b2(min, max);
            (out2(&b), b.volume().value_unchecked(), b.max_side_length().in_meters(), b.get_quadrants().iter().map(out2).collect())
        }
    }
    /// whether the box contains the point, in which part, and its squared distance in 3D
    #[inline(never)]
    pub fn point(three: bool, min: [f64; 3], max: [f64; 3], p: [f64; 3]) -> (bool, Option<usize>, Option<f64>) {
        if three {
            let b = b3(min, max);
            let inside = b.contains(&v3(p));
            (inside, inside.then(|| b.get_quadrant_index(&v3(p))), Some(b.squared_distance_to_pos(&v3(p)).value_unchecked()))
        } else {
            let b = b2(min, max);
            let inside = b.contains(&v2(p));
            (inside, inside.then(|| b.get_quadrant_index(&v2(p))), None)
        }
    }
    /// Boxes without units: contains the point, contains the other box, corners, the point
    /// in the coordinates of the triangulation.
    #[inline(never)]
    pub fn plain(three: bool, min: [f64; 3], max: [f64; 3], p: [f64; 3], other: ([f64; 3], [f64; 3])) -> (bool, bool, Vec<[f64; 3]>, Option<[f64; 3]>) {
        if three {
            let m = |x: [f64; 3]| MVec3::from_array(x);
            let b = Extent::from_min_max(m(min), m(max));
            let o = Extent::from_min_max(m(other.0), m(other.1));
            let inside = b.contains(&m(p));
            (inside, b.contains_extent(&o), b.get_extreme_points().map(|x| x.to_array()).to_vec(), inside.then(|| ThreeD::remap_point(m(p), &b).to_array()))
        } else {
            let m = |x: [f64; 3]| MVec2::new(x[0], x[1]);
            let b = Extent::from_min_max(m(min), m(max));
            let o = Extent::from_min_max(m(other.0), m(other.1));
            let inside = b.contains(&m(p));
            let up = |x: MVec2| [x.x, x.y, 0.0];
            (inside, b.contains_extent(&o), b.get_extreme_points().map(up).to_vec(), inside.then(|| up(TwoD::remap_point(m(p), &b))))
        }
    }
    #[inline(never)]
    pub fn sphere(three: bool, center: [f64; 3], radius: f64) -> Corners {
        if three {
            let b = Extent::<MVec3>::cube_around_sphere(MVec3::from_array(center), radius);
            (b.min.to_array(), b.max.to_array(), b.center.to_array())
        } else {
            let b = Extent::<MVec2>::cube_around_sphere(MVec2::new(center[0], center[1]), radius);
            let up = |x: MVec2| [x.x, x.y, 0.0];
            (up(b.min), up(b.max), up(b.center))
        }
    }
    #[inline(never)]
    pub fn cube(three: bool, centered: bool, side: f64) -> Corners {
        let l = Length::meters(side);
        match (three, centered) {
            (true, true) => out3(&Extent3d::cube_from_side_length_centered(l)),
            (true, false) => out3(&Extent3d::cube_from_side_length(l)),
            (false, true) => out2(&Extent2d::cube_from_side_length_centered(l)),
            (false, false) => out2(&Extent2d::cube_from_side_length(l)),
        }
    }
    #[inline(never)]
    pub fn read(three: bool, text: &str) -> Result<Corners, String> {
        if three {
            serde_yaml::from_str::<Extent3d>(text).map(|e| out3(&e)).map_err(|e| e.to_string())
        } else {
            serde_yaml::from_str::<Extent2d>(text).map(|e| out2(&e)).map_err(|e| e.to_string())
        }
    }
    /// What is written in the record of the parameters.
    #[inline(never)]
    pub fn write(min: [f64; 3], max: [f64; 3]) -> String {
        serde_yaml::to_string(&b3(min, max)).unwrap()
    }
}
