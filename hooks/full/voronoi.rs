#[cfg(any(feature = "c18", feature = "c19"))]
mod tri {
    use super::super::delaunay::dimension::{DFace, DTetra};
    use super::super::delaunay::{Delaunay, PointIndex, PointKind};
    use super::super::*;
    use crate::dimension::Point;
    use crate::extent::Extent;

    /// A copy of a triangulation in plain numbers.
    #[derive(Default, Debug)]
    pub struct Plain {
        /// Corners of every tetra and, in the same order, (key of the face opposite to the corner,
        /// its corners, index of the tetra on the other side and the point there).
        pub tetras: Vec<(Vec<usize>, Vec<(String, Vec<usize>, Option<(usize, usize)>)>)>,
        pub num_faces: usize,
        /// All points in the order of their indices; true for the corners of the first tetra.
        pub outer: Vec<bool>,
        pub dangling: bool,
    }

    pub fn start<D: DDimension>(min: Point<D>, max: Point<D>, first: Point<D>) -> Triangulation<D>
    where
        Triangulation<D>: Delaunay<D>,
    {
        let extent = Extent::from_points([min, max].into_iter()).unwrap();
        Triangulation::construct_from_iter_custom_extent([((), first)].into_iter(), &extent).0
    }

    pub fn insert<D: DDimension>(t: &mut Triangulation<D>, p: Point<D>) -> usize
    where
        Triangulation<D>: Delaunay<D>,
    {
        t.insert(p, PointKind::Inner).0 .0
    }

    pub fn points<D: DDimension>(t: &Triangulation<D>) -> Vec<Point<D>>
    where
        Triangulation<D>: Delaunay<D>,
    {
        t.iter_original_points().map(|(_, p)| p).collect()
    }

    pub fn plain<D: DDimension>(t: &Triangulation<D>) -> Plain
    where
        Triangulation<D>: Delaunay<D>,
    {
        let ids: Vec<_> = t.tetras.iter().map(|(i, _)| i).collect();
        let pos = |i| ids.iter().position(|j| *j == i);
        let mut res = Plain {
            num_faces: t.faces.iter().count(),
            outer: t.iter_original_points().map(|(p, _)| t.point_kinds[&p] == PointKind::Outer).collect(),
            ..Default::default()
        };
        for (_, tetra) in t.tetras.iter() {
            let mut faces = vec![];
            for f in tetra.faces() {
                let opp = f.opposing.and_then(|o| match pos(o.tetra) {
                    Some(i) => Some((i, o.point.0)),
                    None => {
                        res.dangling = true;
                        None
                    }
                });
                faces.push((format!("{:?}", f.face), t.faces[f.face].points().map(|p| p.0).collect(), opp));
            }
            res.tetras.push((tetra.points().map(|p| p.0).collect(), faces));
        }
        res
    }

    pub fn voronoi<D: DDimension>(t: &Triangulation<D>) -> VoronoiGrid<D>
    where
        Triangulation<D>: Delaunay<D> + Clone,
        Cell<D>: DCell<Dimension = D>,
    {
        let map: crate::hash_map::BiMap<_, _> = t
            .iter_original_points()
            .map(|(p, _)| (ParticleType::Local(crate::prelude::ParticleId { index: p.0 as u32, rank: 0 }), p))
            .collect();
        TriangulationData::from_triangulation_and_map(t.clone(), map).construct_voronoi()
    }

    pub fn point_index(p: PointIndex) -> usize {
        p.0
    }
}
#[cfg(any(feature = "c18", feature = "c19"))]
pub use tri::*;
#[cfg(feature = "c25")]
pub use super::primitives::{
    polygon3d::Polygon3d,
    tetrahedron::TetrahedronData,
    triangle::{EdgeIdentifier, IntersectionType, TriangleData},
};
#[cfg(feature = "c25")]
pub use super::delaunay::dimension::DTetraData;
#[cfg(feature = "c25")]
pub use crate::extent::Extent;
