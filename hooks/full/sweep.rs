#[cfg(feature = "c14")]
pub use super::communicator::SweepCommunicator;
#[cfg(feature = "c14")]
pub use crate::chemistry::hydrogen_only::HydrogenOnly;
#[cfg(feature = "c26")]
pub mod chemistry {
    use crate::chemistry::hydrogen_only::{HydrogenOnly, HydrogenOnlySpecies};
    use crate::chemistry::Chemistry;
    use super::super::direction::Directions;
    use crate::sweep::grid::Cell;
    use crate::sweep::site::Site;
    use crate::units::*;

    pub struct Gas {
        site: Site<HydrogenOnly>,
        chemistry: HydrogenOnly,
        pub length: f64,
        pub volume: f64,
    }

    /// All in cgs.
    impl Gas {
        #[allow(clippy::too_many_arguments)]
        pub fn new(x: f64, t: f64, density: f64, length: f64, volume: f64, a: f64, safety: f64, prevent_cooling: bool, threshold: f64) -> Self {
            let species = HydrogenOnlySpecies::new(Dimensionless::dimensionless(x), Temperature::kelvins(t));
            let directions: Directions = (&super::super::DirectionsSpecification::Num(1)).into();
            Gas {
                site: Site::new(&directions, species, Density::grams_per_cubic_centimeters(density), PhotonRate::zero()),
                chemistry: HydrogenOnly {
                    rate_threshold: PhotonRate::photons_per_second(threshold),
                    scale_factor: Dimensionless::dimensionless(a),
                    timestep_safety_factor: Dimensionless::dimensionless(safety),
                    prevent_cooling,
                },
                length,
                volume,
            }
        }
        pub fn state(&self) -> (f64, f64) {
            (self.site.species.ionized_hydrogen_fraction.value(), self.site.species.temperature.in_kelvins())
        }
        /// Returns the recommended timestep and what limits it.
        pub fn step(&mut self, rate: f64, dt: f64) -> (f64, String) {
            let s = self.chemistry.update_abundances(
                &mut self.site,
                PhotonRate::photons_per_second(rate),
                Time::seconds(dt),
                Volume::cubic_centimeters(self.volume),
                Length::centimeters(self.length),
            );
            assert_eq!(self.site.species.timestep.in_seconds(), s.time.in_seconds());
            (s.time.in_seconds(), s.process.to_string())
        }
        pub fn outgoing(&self, rate: f64) -> f64 {
            let cell = Cell { neighbours: vec![], size: Length::centimeters(self.length), volume: Volume::cubic_centimeters(self.volume) };
            self.chemistry.get_outgoing_rate(&cell, &self.site, PhotonRate::photons_per_second(rate)).in_photons_per_second()
        }
    }
}
/// The directions that the next sweep uses.
#[cfg(feature = "c12")]
pub fn current_directions(sim: &crate::prelude::Simulation) -> Option<Vec<[f64; 3]>> {
    let solver = sim.app.world.get_non_send_resource::<Option<super::Sweep<crate::chemistry::hydrogen_only::HydrogenOnly>>>()?;
    Some(
        solver
            .as_ref()?
            .directions
            .enumerate()
            .map(|(_, d)| {
                let v = d.0.value_unchecked();
                [v.x, v.y, v.z]
            })
            .collect(),
    )
}
/// A sweep whose chemistry does what the harness says and records what it is asked to do.
#[cfg(feature = "c30")]
pub mod schedule {
    use super::super::direction::Directions;
    use super::super::{DirectionsSpecification, Sweep, SweepParameters};
    use crate::chemistry::timescale::Timescale;
    use crate::chemistry::Chemistry;
    use crate::hash_map::HashMap;
    use crate::particle::ParticleId;
    use crate::performance::Performance;
    use crate::sweep::grid::Cell;
    use crate::sweep::site::Site;
    use crate::units::*;
    use std::cell::RefCell;
    use std::rc::Rc;

    #[derive(Clone, Debug, PartialEq)]
    pub struct Update {
        pub cell: usize,
        pub seconds: f64,
        pub rate: f64,
    }

    #[derive(Default)]
    struct Shared {
        updates: Vec<Update>,
        /// By cell: the timescale on which it changes.
        timescale: Vec<f64>,
        /// By cell: what it lets out in every direction.
        outgoing: Vec<f64>,
    }

    #[derive(Clone)]
    pub struct Recorder(Rc<RefCell<Shared>>);

    impl Chemistry for Recorder {
        type Photons = PhotonRate;
        type Species = usize;

        fn get_outgoing_rate(&self, _: &Cell, site: &Site<Self>, _: PhotonRate) -> PhotonRate {
            PhotonRate::photons_per_second(self.0.borrow().outgoing[site.species])
        }

        fn update_abundances(&self, site: &mut Site<Self>, rate: PhotonRate, timestep: Time, _: Volume, _: Length) -> Timescale {
            let mut s = self.0.borrow_mut();
            let cell = site.species;
            s.updates.push(Update { cell, seconds: timestep.in_seconds(), rate: rate.in_photons_per_second() });
            Timescale::temperature(Time::seconds(s.timescale[cell]))
        }
    }

    pub struct Steps {
        sweep: Sweep<Recorder>,
        timers: Performance,
        shared: Recorder,
    }

    impl Steps {
        /// `cells`: by identifier, the index of the cell, the cell and its source.
        pub fn new(
            cells: Vec<(ParticleId, usize, Cell, f64)>,
            haloes: Vec<ParticleId>,
            dirs: DirectionsSpecification,
            parameters: SweepParameters,
            ranks: usize,
            rank: i32,
        ) -> Steps {
            let directions: Directions = (&dirs).into();
            let shared = Recorder(Rc::new(RefCell::new(Shared::default())));
            let mut map: HashMap<ParticleId, Cell> = HashMap::default();
            let mut sites: HashMap<ParticleId, Site<Recorder>> = HashMap::default();
            for (id, i, cell, source) in cells {
                let density = Density::grams_per_cubic_centimeters(0.0);
                sites.insert(id, Site::new(&directions, i, density, PhotonRate::photons_per_second(source)));
                map.insert(id, cell);
            }
            let sweep = Sweep::new(
                directions,
                map,
                sites,
                haloes,
                parameters.max_timestep,
                parameters.timestep_safety_factor,
                &parameters,
                ranks,
                rank,
                shared.clone(),
            );
            Steps { sweep, timers: Performance::default(), shared }
        }

        /// The time that has passed, and all updates.
        pub fn step(&mut self, timescale: &[f64], outgoing: &[f64]) -> (f64, Vec<Update>) {
            {
                let mut s = self.shared.0.borrow_mut();
                s.updates.clear();
                s.timescale = timescale.to_vec();
                s.outgoing = outgoing.to_vec();
            }
            let t = self.sweep.run_sweeps(&mut self.timers).in_seconds();
            (t, self.shared.0.borrow().updates.clone())
        }
    }
}
