TECHNIQUE = {
    "enum": "explicit enumeration of all inputs or operation sequences within bounds, run on the real code against a reference model",
    "mpi": "stateless model checking of the real code under a controlled MPI scheduler (all executions within a deviation bound)",
}

PROPS = [
    dict(id="C01", title="File regions partition all entries over ranks, for input and for output", tech="enum",
         statement="When entries are read from a set of files by any number of ranks, every entry of every file is assigned to exactly one rank, in file order, and the load is balanced up to the number of ranks. When ranks write their entries to a requested number of files, every rank writes each of its entries exactly once, in order, to consecutive positions, so that every file is filled without gap or overlap. No region is empty.",
         over=["inputs", "configurations"], all="all lists of file sizes or per-rank entry counts (empty ones included), all numbers of ranks and files",
         why="the tests check six hand-picked inputs; gaps and overlaps appear for particular patterns of empty files and uneven counts",
         files=["src/io/file_distribution.rs"], mech=[("assignment of regions", "src/io/file_distribution.rs: get_rank_assignment")],
         hook="access to the two assignment functions, whose module is private",
         note="all size lists up to length 5 over 0..6, 9 over {0,1,3}, 5 with large values; 1..8 ranks or files"),
    dict(id="C02", title="The per-rank store is a map from rank to value", tech="enum",
         statement="A container of data by rank returns for each rank exactly what was last stored for it, yields each present rank exactly once in rank order however it is iterated, and counts its items correctly, after any sequence of operations. Its constructors give a value to exactly the intended ranks: all others, or all.",
         over=["histories"], all="all operation sequences from all constructors",
         why="two tests iterate over three inserted values",
         files=["src/communication/data_by_rank.rs", "src/communication/sized_communicator.rs"], mech=[("per-rank store", "src/communication/data_by_rank.rs")],
         note="all sequences of 5 (6) of 18 operations on 4 ranks, from 14 starts"),
    dict(id="C03", title="All-to-all exchange delivers exactly what was addressed, and never blocks", tech="mpi",
         statement="In an exchange, every rank receives from every other rank exactly the items that rank addressed to it, in order, and nothing else, also when ranks send nothing to some or all others. The exchange can be repeated any number of times, cannot deadlock whether or not the MPI library buffers messages, and work that is split into chunks uses the same number of exchanges on every rank.",
         over=["inputs", "schedules", "configurations"], all="all payload sizes of all pairs of ranks, all numbers of ranks, rounds, buffering modes of the MPI library",
         why="unit tests run on one rank, where an exchange sends nothing",
         files=["src/communication/exchange_communicator.rs", "src/communication/mpi_world.rs"], mech=[("exchange", "src/communication/exchange_communicator.rs: exchange_all"), ("chunks", "src/communication/exchange_communicator.rs: divide_into_chunks_with_same_num_globally")],
         note="real code over a model MPI; 1-4 ranks, every matrix of absent/empty/short payloads, 3 rounds, eager and rendezvous"),
    dict(id="C04", title="Typed messages and collectives are exact on every rank and in every schedule", tech="mpi",
         statement="Messages of one type from one rank to another arrive exactly once and in the order sent, whenever the receiver polls, and are never confused with messages of another type. Gathers, sums, minima, maxima, gathers of lists and equality tests over all ranks give the same, correct result on every rank.",
         over=["schedules", "inputs"], all="all arrival orders and polling schedules, all values and list lengths, all numbers of ranks",
         why="one test sends one message from a rank to itself",
         files=["src/communication/mpi_world.rs"], mech=[("typed world communicator", "src/communication/mpi_world.rs")],
         note="real code over a model MPI; all schedules within 3 deviations from 4 base schedules, 1-4 ranks"),
    dict(id="C05", title="Values survive the wire: options, extents, keys and indices, alone and in arrays", tech="mpi",
         statement="Every value of a type that is communicated between ranks (optional values, extents, space-filling curve keys, direction and tree node indices) arrives bit for bit as the value that was sent, at every position of an array. An absent optional value arrives as absent.",
         over=["inputs"], all="all sequences of values of all communicated types",
         why="one test packs and unpacks four single values; layout errors show only in arrays or for particular members",
         files=["src/communication/communicated_option.rs", "src/extent.rs", "src/peano_hilbert.rs", "src/quadtree/node_index.rs", "src/sweep/direction/mod.rs"],
         mech=[("wire datatypes", "src/communication/communicated_option.rs, src/extent.rs, src/peano_hilbert.rs: Equivalence")],
         hook="access to extents, keys, indices in private modules",
         note="all sequences up to length 3 (4) over 14 types, through all transports, on 3 ranks"),
    dict(id="C06", title="The space-filling curve is a bijection that keeps neighbours together", tech="enum",
         statement="The key of a position in a box identifies its cell: at every depth, different cells have different keys, points of one cell share the leading bits, and cells that follow each other on the curve touch. This holds in two and three dimensions, for boxes of any position, size and shape, including points on the border.",
         over=["inputs"], all="all cells of all depths, all boxes",
         why="one test inverts 900 cells of one corner in two dimensions; the 3D tables are not tested",
         files=["src/peano_hilbert.rs"], mech=[("curve", "src/peano_hilbert.rs: from_point_and_min_max")],
         hook="the key types are in a private module",
         note="all cells of levels 0..11 (2D) and 0..7 (3D), blocks at all depths to the last bit"),
    dict(id="C07", title="Determinant signs that decide geometric predicates are exact", tech="enum",
         statement="The sign of a 3x3 or 4x4 determinant of floating point numbers is that of the exact determinant, for degenerate and nearly degenerate matrices at any scale. Determinants in exact arithmetic are exact up to 5x5, and those of small integer matrices are exact in floating point too.",
         over=["inputs"], all="all matrices, in particular those of three collinear, four cocircular or coplanar and five cospherical points up to rounding",
         why="tests compare about a thousand recorded 5x5 matrices and three others",
         files=["src/voronoi/math/utils.rs", "src/voronoi/math/precision_types.rs"], mech=[("sign with exact fallback", "src/voronoi/math/utils.rs: determine_sign_with_arbitrary_precision_if_necessary")],
         note="all small integer matrices; ulp neighbourhoods of 50 degenerate configurations against rational elimination"),
    dict(id="C08", title="Linear solvers return the solution or report that they cannot", tech="enum",
         statement="For every non-singular system of two or three equations the solvers return its solution, exactly in rational arithmetic and up to rounding in floating point, whatever the order of the rows and the position of zeros. The guarded solver reports every system that is singular to within its absolute tolerance of 1e-8 instead of returning numbers.",
         over=["inputs"], all="all systems of two and three equations",
         why="tests solve five systems",
         files=["src/voronoi/math/utils.rs"], mech=[("elimination", "src/voronoi/math/utils.rs: solve_system_of_equations, solve_3x4_system_of_equations_error")],
         note="all systems over -2..2 (3x3) and -5..5 (2x2), several right-hand sides and scales, against Cramer's rule"),
    dict(id="C09", title="The extent of a point set is its bounding box", tech="enum",
         statement="The extent computed from any set of points is exactly its bounding box with its centre, in one, two and three dimensions, and absent exactly if there are no points. The extent with periodic images is three times as large around the same centre.",
         over=["inputs"], all="all lists of points",
         why="one test has three points",
         files=["src/extent.rs", "src/voronoi/math/traits.rs"], mech=[("bounding box", "src/extent.rs: get_extent_from_min_and_max_reduce")],
         hook="extents are in a private module",
         note="all lists of up to 6 / 4 / 4 points over small coordinate grids"),
    dict(id="C10", title="Rotated directions stay orthonormal; upwind counts are exact", tech="enum",
         statement="Every rotation applied to the sweep directions is a proper rotation, so that directions stay unit vectors with unchanged angles between them over any number of rotations, and no axis of space is preferred in the long run; the built-in direction sets consist of the stated number of distinct unit vectors without a preferred direction. The number of missing upwind dependencies is kept separately and exactly for every direction.",
         over=["histories", "configurations"], all="all rotation histories, all direction sets, all sequences of count updates",
         why="tests check determinants and one vector's norm for 100 rotations",
         files=["src/sweep/direction/mod.rs", "src/sweep/direction/healpix.rs", "src/sweep/count_by_dir.rs"],
         mech=[("rotation", "src/sweep/direction/mod.rs: get_random_rotation_matrix, multiply_by_matrix"), ("counts", "src/sweep/count_by_dir.rs")],
         hook="the rotation functions and tables are private",
         note="the first 20000 rotations of every run (its seed is fixed), all tables, all count sequences of length 6"),
    dict(id="C11", title="Element stores of the triangulation never confuse or resurrect elements", tech="enum",
         statement="An identifier handed out for a stored element refers to that element until it is removed and to nothing afterwards, even when its place is reused; identifiers are never given twice. Iteration yields each live element exactly once, with its identifier.",
         over=["histories"], all="all sequences of insertions, removals and accesses",
         why="there are no tests of the stores",
         files=["src/voronoi/indexed_arena.rs"], mech=[("typed arena", "src/voronoi/indexed_arena.rs")],
         hook="the stores are in a private module",
         note="all sequences of 7 (8) of 9 operations"),
    dict(id="C12", title="The sweep solves the transport equation, however cells are distributed", tech="mpi",
         statement="The photon rates that a sweep computes in every cell are those of the discretised transport equation on the given grid: for every direction, what enters a cell is what leaves its upwind neighbours in proportion to the shared faces, what is not absorbed leaves it, and sources add their share, up to the stated significance threshold. The result does not depend on the number of ranks, the distribution of the cells over them, or the order in which messages arrive; with periodic boundaries the iteration reaches the steady state. Rotating the directions between sweeps keeps the angles between them, is the same rotation on all ranks, and later sweeps solve the equation for the new directions. Every sweep terminates.",
         over=["inputs", "schedules", "configurations"], all="all grids, distributions of cells over ranks, directions, sources, absorption, message schedules",
         why="the tests of the sweep need an MPI launcher and a few fixed grids; wrong results show for particular distributions and arrival orders",
         files=["src/sweep/mod.rs", "src/sweep/communicator.rs", "src/sweep/task.rs", "src/sweep/grid/cell.rs"], mech=[("sweep loop", "src/sweep/mod.rs: Sweep::run_sweeps, solve_task, handle_neighbour"), ("periodic retries", "src/sweep/mod.rs")],
         hook="sweep internals are private",
         note="real code over a model MPI; small grids, all distributions over 1-3 ranks, all schedules within a deviation bound"),
    dict(id="C13", title="Individual timesteps: same result on any number of ranks, exact times", tech="mpi",
         statement="When cells are on different timestep levels, the rates in all cells after every substep are the same for every distribution of the cells over ranks and every schedule (on non-periodic grids), inactive cells included, and agree with the reference once a steady state is reached. All cells on one level behave as in a single sweep with that timestep. The sequence of simulated times is exact, and every substep terminates on every rank, also on ranks without active cells.",
         over=["inputs", "schedules", "configurations"], all="all assignments of levels to cells and of cells to ranks, all message schedules",
         why="no test runs the sweep with several levels on several ranks",
         files=["src/sweep/mod.rs", "src/sweep/timestep_level.rs", "src/sweep/timestep_state.rs", "src/sweep/active_list.rs"], mech=[("substeps", "src/sweep/mod.rs: run_sweeps, single_sweep"), ("levels", "src/sweep/timestep_state.rs, src/sweep/active_list.rs")],
         hook="sweep internals are private",
         note="real code over a model MPI; 4 cells, 2-3 ranks, 1-3 levels, fronts moving through, schedules within a bound"),
    dict(id="C14", title="The sweep communicator loses, duplicates and reorders nothing", tech="mpi",
         statement="Every flux that is handed to the sweep communicator for another rank arrives there exactly once and in order, whatever the buffer sizes and however polls, sends and completions interleave. No send buffer is changed or freed while a send from it is under way, also when the communicator is dropped.",
         over=["schedules", "histories"], all="all interleavings of sends, polls and completions",
         why="errors show only for particular completion orders of asynchronous sends",
         files=["src/sweep/communicator.rs"], mech=[("asynchronous sends", "src/sweep/communicator.rs")],
         hook="the communicator is private",
         note="real code over a model MPI; all operation sequences of up to 3 ranks, all schedules within a deviation bound"),
    dict(id="C15", title="The domain decomposition is a balanced partition that all ranks agree on", tech="mpi",
         statement="Every particle is assigned to exactly one existing rank, the domains follow the space-filling curve without interleaving, and their loads differ from the ideal by no more than a few particles unless particles share a key, however strongly the particles are clustered. All ranks compute the same decomposition, whichever particles they hold, and the same as a single rank would.",
         over=["inputs", "schedules", "configurations"], all="all multisets of keys, their distributions over ranks, numbers of ranks",
         why="tests use a few random key sets; clustered, equal and extreme keys matter",
         files=["src/domain/decomposition.rs", "src/domain/key.rs"], mech=[("search for cutoffs", "src/domain/decomposition.rs: get_cutoffs, binary_search, get_owning_rank")],
         hook="the decomposition is private",
         note="real code over a model MPI; all key multisets over small and extreme alphabets in 2D and 3D, 1-4 ranks"),
    dict(id="C16", title="Startup exchange moves every particle once, complete, to its owner", tech="mpi",
         statement="After startup every particle is present exactly once, on the rank that owns its position, with all of its components unchanged and in step with each other; identifiers are unique, dense and remembered in the map of previous identifiers; the tree contains the particle counts of all ranks. This holds for every initial distribution, every message schedule and every order in which the scheduler runs systems whose order is not fixed.",
         over=["inputs", "schedules", "configurations"], all="all initial distributions, message schedules and admissible system orders",
         why="one test exchanges a few particles with a single component under one order",
         files=["src/domain/mod.rs", "src/domain/exchange_data_plugin.rs", "src/particle.rs", "src/domain/quadtree.rs"], mech=[("exchange", "src/domain/exchange_data_plugin.rs"), ("ids", "src/domain/mod.rs")],
         hook="plugins are private",
         note="real code over a model MPI; all distributions of up to 4 particles over 2-3 ranks, schedules and system orders within a bound"),
    dict(id="C17", title="Periodic geometry and tree searches agree with brute force", tech="enum",
         statement="Wrapping moves a position by whole box lengths into the box; periodic images, distances and overlap tests are those of the infinitely repeated box. The quad tree contains every particle exactly once in the leaf that covers it, with correct totals in every node, and a periodic radius search returns exactly the particles within the radius.",
         over=["inputs"], all="all positions, box sizes, search radii and tree parameters",
         why="tests sample a few positions away from the faces of the box",
         files=["src/simulation_box.rs", "src/quadtree/mod.rs", "src/quadtree/radius_search.rs"], mech=[("wrap and images", "src/simulation_box.rs"), ("tree", "src/quadtree/mod.rs, src/quadtree/radius_search.rs")],
         hook="tree nodes are private",
         note="all positions on grids with on-face values, all radii from a set, all point sets up to a size, against brute force"),
    dict(id="C18", title="The constructed grid is the Delaunay/Voronoi diagram of the points", tech="enum",
         statement="Inserting points in any order yields a valid triangulation (consistent neighbours, positively oriented, filling the initial simplex) in which no point lies inside the circumsphere of another simplex, and the Voronoi cells derived from it have the volumes, face areas, normals and neighbours of the true Voronoi cells of the points, also in stretched domains and for nearly degenerate positions; the volumes of all cells add up to the box.",
         over=["inputs", "histories"], all="all point sets in general position and orders of insertion",
         why="tests use a handful of random point sets with one order; flips and near-degenerate predicates matter only for particular sequences",
         files=["src/voronoi/delaunay/mod.rs", "src/voronoi/delaunay/dimension.rs", "src/voronoi/delaunay/face_info.rs", "src/voronoi/cell.rs", "src/voronoi/constructor/mod.rs"], mech=[("insertion and flips", "src/voronoi/delaunay/mod.rs: insert, flip_check"), ("cells", "src/voronoi/cell.rs")],
         hook="the triangulation is private",
         note="every insertion sequence of small site sets in 2D and 3D with perturbations of 0.4 to 1e-11, structure and empty circumspheres checked after every insertion, cells against half-space clipping; assumes general position"),
    dict(id="C19", title="The parallel grid is the periodic Voronoi grid, on any number of ranks", tech="mpi",
         statement="The grid on which the sweep runs is the Voronoi grid of all particles of all ranks, with periodic images where boundaries are periodic: every particle has one cell with the true volume, faces, normals and neighbours; neighbours on other ranks and across the periodic boundary are named by the right identifier, rank and image. This holds for any number of ranks, search radius and message schedule, and construction terminates on all ranks.",
         over=["inputs", "schedules", "configurations"], all="all particle distributions, numbers of ranks, search radii and message schedules",
         why="tests compare one random set on a few ranks; missing haloes show only for particular geometries",
         files=["src/voronoi/constructor/mod.rs", "src/voronoi/constructor/parallel/plugin.rs", "src/voronoi/constructor/parallel/mpi_types.rs", "src/voronoi/constructor/halo_iteration.rs", "src/voronoi/constructor/halo_cache.rs"], mech=[("halo search", "src/voronoi/constructor/halo_iteration.rs, src/voronoi/constructor/parallel/plugin.rs"), ("remote ids", "src/voronoi/constructor/halo_cache.rs")],
         hook="the construction plugin is private",
         note="real code over a model MPI; 2D/3D particle sets on 1-4 ranks against a brute-force periodic Voronoi grid, schedules within a bound; one known finding (exactly degenerate images)"),
    dict(id="C20", title="What is read is written: snapshots of any run on any number of ranks", tech="mpi",
         statement="Initial conditions are read completely and exactly once, in their units, from any set of files by any number of ranks in chunks of any size. Every snapshot contains every particle exactly once with the values it had at the output time, the requested fields only (constant ones in the first snapshot), split over the requested number of files, with attributes that belong to that time; a snapshot is written when its time is due and at the end. What was written can be read back on any number of ranks. Existing output is kept, replaced or refused as the parameters say.",
         over=["inputs", "configurations", "schedules"], all="all distributions of particles over input files, numbers of ranks and files, selections of fields, output intervals, message schedules and admissible system orders",
         why="no test covers reading, exchange and output together, or output on several ranks",
         files=["src/io/input/mod.rs", "src/io/output/mod.rs", "src/io/output/plugin.rs", "src/io/output/parameters.rs", "src/io/file_distribution.rs", "src/simulation_plugin/mod.rs"], mech=[("reading", "src/io/input/mod.rs"), ("snapshots", "src/io/output/plugin.rs, src/io/output/timer.rs")],
         hook="readers and output plugins are private",
         note="real code over a model MPI and a model of HDF5 files; up to 4 ranks, all splits of a few particles over files, schedules and system orders within a bound"),
    dict(id="C21", title="Parameters mean what file and overrides say, or are refused", tech="enum",
         statement="The value of every parameter is the one given by the last override that names it or a section that contains it, else that in the parameter file, else the documented default; a parameter file or override that does not describe valid parameters is refused and never silently ignored. The record of the used parameters that is written with the output describes the same parameters when it is read again.",
         over=["inputs", "histories"], all="all sequences of overrides, all subsets of optional parameters, all sections",
         why="tests check single overrides of one section; combinations and omitted sections behave differently",
         files=["src/parameter_plugin/parameter_file_contents.rs", "src/parameter_plugin/mod.rs", "src/simulation_builder.rs", "src/io/output/parameters.rs", "src/parameters.rs"], mech=[("overrides", "src/parameter_plugin/parameter_file_contents.rs"), ("record of used parameters", "src/io/output/mod.rs: write_used_parameters_system")],
         hook="the parameter plugin's types are private",
         note="all sequences of up to 3 (4) overrides on all sections against a reference meaning; all subsets of optional parameters; files that are no parameter files; all combinations of used, written and overridden sections"),
    dict(id="C22", title="The application finds the same, right photon rates on any number of ranks", tech="mpi",
         statement="Run on gas from an Arepo snapshot, the application constructs the grid, gives every source's luminosity to exactly the particle closest to it, sweeps, and writes snapshots and time series that hold, for every particle exactly once, the same density, mass, temperature, ionization, source term and photon rate, whatever the number of ranks, input files and output files: those of the Voronoi cells of the particles (with periodic images if requested), as given by a direct reference solution.",
         over=["inputs", "schedules", "histories"], all="all particle positions, sources, numbers of ranks, directions, periodic or not, numbers of files and of time steps",
         why="no test runs the application; the parts interact through the order of start-up stages and through which rank owns what",
         files=["src/main.rs", "src/source_systems.rs", "src/voronoi/constructor/parallel/plugin.rs", "src/sweep/mod.rs", "src/io/output/mod.rs"], mech=[("source terms", "src/source_systems.rs: set_source_terms_system"), ("grid and sweep", "src/voronoi/constructor/parallel/plugin.rs, src/sweep/mod.rs")],
         note="the real main() with its command line; lattices of 125 particles with noise, 1 and 16 directions, periodic and not, up to 12 steps, 1-4 (5) ranks, against a brute-force Voronoi diagram and a sequential solution; not exhaustive over schedules (C12-C17 are)"),
    dict(id="C23", title="Arepo gas, stars, grid and earlier results are read with their meaning", tech="mpi",
         statement="Whatever the units and cosmological scalings stored with each file, the number of files and the number of ranks: density, temperature and ionization of the gas are those the files describe; stars shine with the luminosity of their age, metallicity and mass while wind particles do not; a grid that is read has exactly the connections of the file, with boundaries where cells meet images; remapping gives every particle at least the ionization and temperature of the closest particle of the last snapshot of the earlier run, compared in comoving coordinates.",
         over=["inputs", "schedules", "histories"], all="all snapshots, units, scale factors, star catalogues, grid files, earlier runs, numbers of ranks and files",
         why="no test reads these files: they need HDF5 snapshots of a galaxy simulation",
         files=["src/main.rs", "src/arepo_postprocess/read_grid/mod.rs", "src/arepo_postprocess/remap.rs", "src/arepo_postprocess/sources.rs", "src/arepo_postprocess/bpass.rs", "src/arepo_postprocess/unit_reader.rs", "src/cosmology.rs"], mech=[("grid", "src/arepo_postprocess/read_grid/mod.rs"), ("remapping", "src/arepo_postprocess/remap.rs"), ("stars", "src/arepo_postprocess/sources.rs, bpass.rs"), ("units", "src/arepo_postprocess/unit_reader.rs")],
         note="the real main() on all combinations of cosmologies, units, files, stars or explicit sources, electron abundance, earlier runs with 1-3 snapshots, read or constructed grids, 1-4 (6) ranks; single deviations of the schedule on 2 ranks"),
    dict(id="C24", title="Vectors, exact numbers and signs below the predicates obey their algebra", tech="enum",
         statement="Dot and cross products, distances, component-wise minima and maxima, normalization and the conversion to exact numbers agree with their definitions for vectors of any size; arithmetic on lifted (arbitrary precision) points is exact; the sign of a number and the product of signs follow the rules of signs, and a value is reported as too close to zero exactly when its absolute value is less than the given tolerance.",
         over=["inputs"], all="all vectors, numbers and tolerances",
         why="these are used everywhere below the grid but have no test of their own",
         files=["src/voronoi/math/traits.rs", "src/voronoi/math/precision_types.rs", "src/voronoi/math/utils.rs"], mech=[("vector traits", "src/voronoi/math/traits.rs"), ("exact numbers", "src/voronoi/math/precision_types.rs"), ("signs", "src/voronoi/math/utils.rs: Sign, lift_matrix")],
         note="all pairs of 2D and 3D vectors over values from 1e-160 to 7e150 against definitions and rational arithmetic"),
    dict(id="C25", title="Geometric predicates are exact for points that are not exactly degenerate", tech="enum",
         statement="For points as the triangulation uses them (between 1 and 2 in every direction): whether a simplex contains a point, whether its circumsphere does, and outside of which edges of a triangle a line passes is answered exactly, however close to degenerate the points are. Circumcentres and polygon areas are correct up to rounding, and the first simplex is positively oriented and contains the whole extent.",
         over=["inputs"], all="all simplices and points that are not exactly degenerate, down to differences in the last bit",
         why="a few tests use well separated points, for which floating point arithmetic is enough",
         files=["src/voronoi/primitives/tetrahedron.rs", "src/voronoi/primitives/triangle.rs", "src/voronoi/primitives/polygon3d.rs"], mech=[("in-sphere", "src/voronoi/primitives/tetrahedron.rs: circumcircle_contains"), ("intersection", "src/voronoi/primitives/triangle.rs: get_line_intersection_type")],
         hook="the primitives are private",
         note="all simplices over 11 points of a cube, points displaced by single units in the last place and all powers of two, against integer arithmetic"),
    dict(id="C26", title="Absorbed photons ionize and heat a cell; its state stays physical", tech="enum",
         statement="A cell lets pass exactly the photons that its neutral hydrogen does not absorb. Over a time step its temperature and ionized fraction change as photoionization and photoheating by the absorbed photons, collisional ionization, recombination and the cooling processes of Rosdahl et al. (2015) demand, subdividing the step wherever the relative change would exceed the safety factor. From any physical state, including fully neutral and fully ionized gas, the fraction stays between 0 and 1 and the temperature positive; with prevent_cooling neither ever decreases in a step. The recommended time step is the one for which the faster changing quantity changes by the safety factor.",
         over=["inputs", "histories"], all="all densities, temperatures, fractions, fluxes, time steps and sequences of them",
         why="tests compare derivatives at seven temperatures and need reference files for the rest; the edges of the state space are not covered",
         files=["src/chemistry/hydrogen_only/mod.rs", "src/chemistry/mod.rs", "src/chemistry/timescale.rs"], mech=[("solver", "src/chemistry/hydrogen_only/mod.rs: Solver"), ("absorption", "src/chemistry/hydrogen_only/mod.rs: get_outgoing_rate")],
         hook="sites and cells are private",
         note="all combinations of 7 (12) temperatures, 9 fractions, 4 (7) densities, cells, scale factors, fluxes switched off and on and steps of 1 to 1e8 years against an independent implementation of the scheme"),
    dict(id="C27", title="Units, scale factors, times and temperatures mean what they say", tech="enum",
         statement="A number with any unit of the unit system, given in the code or in a parameter file, is the quantity that this unit defines, and physical constants have their values. A quantity with cosmological scalings is converted with exactly its powers of scale factor and Hubble parameter. The time between two scale factors in a flat cosmology (with or without dark energy) is the integral of the Friedmann equation, the scale factor after any time is the one for which that holds up to 100 years, also beyond redshift zero, and times are written with the scale factor and redshift that belong to them. Temperatures and internal energies are those of an ideal monatomic gas of hydrogen and convert into each other without loss.",
         over=["inputs"], all="all units, values, powers, flat cosmologies, scale factors and times",
         why="tests sample two scale factor intervals and no unit; a slip in one unit or one power shows only in runs that use it",
         files=["src/units/mod.rs", "src/units/specific_impls.rs", "src/units/dimension.rs", "src/cosmology.rs", "src/time_spec.rs"], mech=[("units", "src/units/mod.rs"), ("cosmology", "src/cosmology.rs")],
         hook="quantities with computed dimensions can only be handled inside the crate",
         note="48 units with 9 values and their symbols, all constants, all powers -4..4 of a and h, all pairs of 43 (203) scale factors from 0.001 to 2 in 21 cosmologies against numerical integration; the unit system macro is the stand-in for diman"),
    dict(id="C28", title="Boxes contain, divide and measure as boxes do, and are read as written", tech="enum",
         statement="In two and three dimensions: a box contains exactly the points between its faces, faces included; it is the union of its quadrants (octants), and a point is in the one its index says, also on the planes between them; volume, longest side, corners and the distance to a point are those of the box; the box around points or boxes is the smallest one, and there is none around nothing. Mapping into the coordinates of the triangulation keeps ratios and stays within 1 to 2. A box in a parameter file may be given by its size, its side lengths or its corners, in any unit of length; what is no box is refused.",
         over=["inputs"], all="all boxes, points and texts",
         why="tests take one box and a few points, none on the faces between quadrants; those for two dimensions are switched off",
         files=["src/domain/extent.rs", "src/dimension.rs", "src/extent.rs"], mech=[("boxes", "src/domain/extent.rs"), ("mapping", "src/dimension.rs: remap_point")],
         hook="quantities with computed dimensions can only be handled inside the crate",
         note="all boxes over 5 sides, with all points below, at, one unit in the last place beside and above each face and the centre; all lists of up to 3 (5) points over a lattice"),
    dict(id="C29", title="A cartesian grid is the regular grid of the box, on any number of ranks", tech="enum",
         statement="A cartesian grid of a box has exactly the cubic cells of the requested size that fill the box, each on exactly one rank with dense indices, in slabs of about the same size; the six faces of each cell have the area and normal of a cube's and lead to the cell that is there: local, on another rank, across the periodic boundary with the wrap that belongs to the face, or to the boundary. Each rank has exactly the cells of others as halo cells that touch its own.",
         over=["inputs"], all="all numbers and sizes of cells, ranks, periodic or not",
         why="the tests that use it are switched off here and run sweeps on cubes of one cell size",
         files=["src/sweep/grid/cartesian.rs", "src/sweep/grid/cell.rs"], mech=[("grid", "src/sweep/grid/cartesian.rs")],
         note="all grids of up to 6x6x6 (8x8x8) cells on 1 to 6 (9) ranks, and rows of up to 60 (300) cells with 7 sizes that are decimal numbers"),
    dict(id="C30", title="Every cell advances by the elapsed time, in steps its timescale allows", tech="mpi",
         statement="In every simulation step, every cell is advanced by exactly the time that passes. It is advanced in equal steps of the maximum timestep divided by a power of two: the longest of the steps currently allowed that does not exceed the safety factor times the shorter of the timescales on which its chemistry and its photon rate (if significant) changed at its last update, or else the shortest step. No cell is updated before all others have reached its time, every update uses the photon rate of that time, and this is the same on any number of ranks.",
         over=["inputs", "histories", "schedules", "configurations"],
         all="all histories of timescales and photon rates, numbers of levels, distributions over ranks, message schedules",
         why="the unit tests check single functions; a wrong level shows only in the history of a cell's updates",
         files=["src/sweep/mod.rs", "src/sweep/timestep_state.rs", "src/sweep/timestep_level.rs", "src/sweep/active_list.rs"], mech=[("choice of the level", "src/sweep/mod.rs: update_chemistry, update_timestep_levels"), ("order of the levels", "src/sweep/timestep_state.rs: iter_levels_in_sweep_order")],
         hook="sweep internals are private",
         note="the real sweep with a chemistry that the harness controls; all sequences of timescales of one cell over 4-5 steps and 6-8 values, of 2 cells over 3-4 steps, of 3 cells over 2 steps, 1-10 levels, all sequences of 5 photon rates over 4-5 steps, schedules with one deviation"),
    dict(id="C31", title="With its deadlock check on, a sweep over a bad grid ends with an error", tech="mpi",
         statement="If the check for deadlocks is switched on, a sweep over a grid on whose faces between ranks the two sides do not agree (a face missing on one side, or leading to another cell), or in which no cell can be solved first, ends with an error instead of waiting forever, on every schedule. A sweep over a grid on which all ranks agree is never refused.",
         over=["inputs", "schedules"], all="all grids, distributions and schedules",
         why="no test switches the check on",
         files=["src/sweep/deadlock_detection.rs", "src/sweep/mod.rs"], mech=[("comparison of dependencies between ranks", "src/sweep/deadlock_detection.rs: check_deadlock")],
         note="all sets of one or two one-sided faces missing or redirected on chains and squares of up to 4 cells on all distributions over 2 and 3 ranks, rings of cells"),
    dict(id="C32", title="What a run writes belongs to the state of its time", tech="mpi",
         statement="In every snapshot, ionized fraction, temperature and photon rate of each particle are what the light and the chemistry of one step make of those of the snapshot before; the rates of photoionization, recombination, collisional ionization and heating are those of that state; the ionization time is the time of the first step after which the particle was more than half ionized, or infinite. Each entry of each time series has the time (and scale factor) of its step, and is the average over all particles at that time, whichever fields are written, on any number of ranks.",
         over=["inputs", "histories", "schedules"], all="all initial conditions, parameters, numbers of ranks and steps",
         why="no test runs the application or writes optional fields or time series",
         files=["src/sweep/chemistry_output.rs", "src/sweep/time_series.rs", "src/sweep/mod.rs", "src/io/time_series.rs", "src/io/output/mod.rs", "src/time_spec.rs", "src/main.rs"],
         mech=[("optional fields", "src/sweep/chemistry_output.rs: sweep_optional_output_system"), ("averages over ranks", "src/sweep/time_series.rs: compute_time_series_system"), ("state after a step", "src/sweep/mod.rs: run_sweep_system")],
         note="runs of 6 (12) steps of 1 kyr to 3 Myr on 27 and 125 particles, 1-4 ranks and 1-4 timestep levels, with and without cosmology, cooling, light; all 64 sets of optional fields; other schedules on 8 particles"),
]

NOT_APPLICABLE = []
