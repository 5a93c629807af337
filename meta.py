#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json; run after editing"""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
K = 'include/physics/'
PROPS = []
EXACT = 'Sound for every input under real arithmetic: the analysed values are gated value graphs of the compiled code and each obligation is an identity over them. Trusts clang\'s front end, the interpreter in vf/ and the models of libm.'


def P(id, title, statement, over, qtext, why, files, mech, technique='', note=EXACT, na=None, floor=0):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


TREE = 'Rank counts 1-9 and key layouts come from a table (clusters, corners of the domain, deep pairs); particle contents are unknown. Distinct keys and at least one particle per rank are assumed, as the code requires.'

I, C, H, S = 'inputs', 'configurations', 'histories', 'schedules'
NOT = 'the existing tests never execute this code (only tensors and filling curves have tests)'

P('P01', 'Kernel gradients, selection, support and scaling agree',
  'For every smoothing kernel in every dimension the gradient returned for a separation vector is the derivative of the kernel value along that vector, both vanish outside the smoothing length, and W(r,h) = h^-D W(r/h,1). The kernel named in the parameters is the one the simulation uses.',
  [I, C], 'all separations, smoothing lengths, 8 kernels, 3 dimensions', NOT + '; a continuum of separations over piecewise formulas',
  [K + 'kernels.h'], [('kernel / kernel_gradient specialisations', K + 'kernels.h'), ('select', K + 'kernels.h')], 'abstract interpretation of LLVM IR to gated value graphs; algebraic normal form per gate region')
P('P02', 'Smoothing kernels integrate to one',
  'The volume integral of every smoothing kernel over its support is one in 1, 2 and 3 dimensions.',
  [I, C], 'all kernels, dimensions, sinc indices 3..12', NOT + '; an integral over a continuum',
  [K + 'kernels.h'], [('sigma tables', K + 'kernels.h')], 'abstract interpretation of LLVM IR to piecewise radial formulas, integrated by closed quadrature',
  note='Integrates the extracted piecewise formula; tolerance 1e-6 (2e-2 for sinc, whose coefficients are fits).')
P('P03', 'Pairwise forces are equal and opposite',
  'For any two particles within reach of each other, the mass-weighted accelerations they receive from one another through pressure, artificial viscosity and short-range repulsion are equal and opposite. Linear momentum is therefore conserved whatever the particle states.',
  [I, C], 'all pairs of particle states, kernels, smoothing-length symmetrisations, dimensions', NOT,
  [K + 'default_physics.h', K + 'viscosity.h', K + 'kernels.h'], [('compute_acceleration', K + 'default_physics.h'), ('artificial_viscosity', K + 'viscosity.h')])
P('P04', 'Pairwise energy exchange balances pairwise work',
  'For any two interacting particles the rate of change of their internal (or total) energies caused by one another cancels the work done by their mutual forces, so the pair neither creates nor destroys energy.',
  [I, C], 'all pairs of particle states; internal and total energy formulations', NOT,
  [K + 'default_physics.h', K + 'viscosity.h'], [('compute_dudt', K + 'default_physics.h'), ('compute_dedt', K + 'default_physics.h')])
P('P05', 'Hydrodynamic rates do not depend on the frame or the neighbour order',
  'Density, accelerations and internal-energy rates of a particle are unchanged when all positions are shifted or all velocities are boosted by a common vector, or when its neighbours are listed in another order. They depend on the neighbours only, not on when the particle is processed.',
  [I, C], 'all particle states, shifts, boosts, orders', NOT,
  [K + 'default_physics.h', K + 'viscosity.h'], [('density, pressure and force loops', K + 'default_physics.h')])
P('P06', 'External accelerations are minus the gradient of their potential',
  'For every conservative external-force model the acceleration given to a particle is minus the gradient of the potential energy reported for it, and a combined model is the sum of its parts. The model named in the parameters is the one used for both.',
  [I, C], 'all positions, parameters, force models, dimensions', NOT,
  [K + 'eforce.h'], [('acceleration_*/potential_*', K + 'eforce.h'), ('select', K + 'eforce.h')])
P('P07', 'Equation of state: pressure, sound speed and temperature are consistent',
  'For every equation of state the sound speed used with a particle is the thermodynamic derivative of the pressure formula it uses, and initial internal energies invert that formula. Choosing an equation of state installs all of its functions.',
  [I, C], 'all densities, energies, adiabatic indices; ideal, polytropic, white dwarf, piecewise polytropic', NOT,
  [K + 'eos/eos.h'], [('eos_t members', K + 'eos/eos.h'), ('select', K + 'eos/eos.h')])
P('P08', 'Density profiles: mass, density and gradient are consistent',
  'For every radial density profile the enclosed mass is the volume integral of the density, the total mass inside the unit radius is one, and the reported density gradient is the derivative of the density. A tabulated profile reproduces its table between the first and last radius and is zero outside.',
  [I, C], 'all radii, profile parameters, dimensions', NOT,
  [K + 'density_profiles.h'], [('rho/mass/drho functions', K + 'density_profiles.h'), ('select', K + 'density_profiles.h')])
P('P09', 'Gravity between cells and particles is one consistent expansion',
  'Direct particle gravity is equal and opposite and attracts with G m1 m2 / r^2; the gravity gathered at a cell is the point-mass field of each far source at the cell centre together with the derivatives of that field, and the force handed to a particle below the cell is the Taylor expansion built from them. Each contribution is added once, and nothing but gravity is changed.',
  [I, C], 'all positions, masses, cells', NOT,
  [K + 'fmm.h'], [('fmm_p2p, fmm_c2c, fmm_p2c, fmm_c2p', K + 'fmm.h')])
P('P10', 'Time integration advances each quantity with its own rate and step',
  'A kick changes each velocity and energy by exactly its rate times half a step, a drift changes each position by exactly velocity times the step, and no other particle quantity changes. The saved half-step velocity is the one the later corrections use, conversions between total and internal energy are inverse to each other, drag stays a deceleration, and the clock advances by the step.',
  [I, C, H], 'all particle states and time steps', NOT,
  [K + 'integration.h'], [('leapfrog functions', K + 'integration.h')])
P('P11', 'Tree-node aggregates are exact for the particles below them',
  'Every tree node\'s mass is the sum of the masses below it, its centre is their mass-weighted mean, its box encloses every particle below it together with half its smoothing length, so that the boxes of interacting particles meet, and combining partial nodes in any grouping gives the same result. This holds for every node of a whole tree, including nodes whose particles are on other ranks.',
  [I, H], 'all particle sets, all groupings', NOT,
  ['include/tree_topology/tree_topology.h', 'include/node.h', K + 'fmm.h'], [('compute_cofm', K + 'fmm.h')])
P('P12', 'Geometric neighbour predicates are symmetric, exact and conservative',
  'Within-distance tests between points, boxes and spheres answer exactly the Euclidean relation they name, are symmetric in their arguments, and a box test never rejects a box containing a point that the point test accepts.',
  [I, C], 'all points, boxes, radii, dimensions', NOT,
  ['include/tree_topology/tree_geometry.h'], [('tree_geometry functions', 'include/tree_topology/tree_geometry.h')])
P('P13', 'Tensor components occupy distinct, consistently addressed storage',
  'A tensor stores exactly its independent components; every way of naming a component (indices, const access, named index, linear position) reaches the same storage, distinct components never share storage, and symmetric tensors identify exactly permuted indices.',
  [I, C], 'all index tuples; rank 1-4; dimension 1-4; generic and symmetric', 'the test samples a few components of a few instantiations',
  ['include/tensor.h'], [('index linearisation', 'include/tensor.h')], 'constant propagation through the access functions; bijection check over every index tuple', note='Exhaustive over ranks and dimensions 1-4.')
P('P14', 'Tensor and vector operations obey their algebra',
  'Element-wise operators act on every component alike even when operands alias, equality means all components agree, and distance, dot product, cross product, magnitude, midpoint, centroid and normals satisfy their defining identities.',
  [I, C], 'all component values, ranks, dimensions, aliasing', 'tests sample few values and no aliased operands',
  ['include/tensor.h', 'include/space_vector.h'], [('operators', 'include/tensor.h'), ('vector functions', 'include/space_vector.h')], 'abstract interpretation of LLVM IR to value graphs; algebraic normal form and BDD')
P('P15', 'Tree keys form a tree: parent, child, depth and range agree',
  'Appending a child index and removing it restores the key and moves the depth by one; the parent, truncation and depth of any key agree with that chain; the keys of a subtree are exactly those between its smallest and largest descendant key. The box of a branch is the part of the domain its key describes: each child\'s box is one octant of its parent\'s.',
  [I, C], 'all keys, depths, child indices, dimensions', 'tests check a handful of fixed keys',
  ['include/tree_topology/filling_curve.h'], [('push/pop/truncate/depth/min/max', 'include/tree_topology/filling_curve.h')])
P('P16', 'Morton keys are injective and invertible at their resolution',
  'Distinct grid cells get distinct Morton keys, nearby prefix structure follows octants, and converting a key back gives a position within one cell of the original.',
  [I, C], 'all grid cells, dimensions', 'tests sample random points',
  ['include/tree_topology/filling_curve.h'], [('morton_curve', 'include/tree_topology/filling_curve.h')])
P('P17', 'Hilbert keys are injective, invertible and continuous',
  'Distinct grid cells get distinct Hilbert keys, a key converts back to its own cell, and consecutive keys denote adjacent cells.',
  [I, C], 'all grid cells, dimensions 2 and 3', 'tests sample random points, and the 3D assertion is commented out',
  ['include/tree_topology/filling_curve.h'], [('hilbert_curve', 'include/tree_topology/filling_curve.h')])
P('P18', 'Particle orderings are strict total orders that all ranks share',
  'Every comparison used to sort particles and key samples or to search among them is irreflexive, asymmetric, transitive and total on particles with different keys or identities, puts smaller keys first, and depends on nothing but key and identity, so every rank places every particle on the same side of a splitter. Particles compare by key with <, are equal exactly when their identities are, and keys compare as the numbers they store.',
  [I, S], 'all pairs and triples of particles', NOT,
  ['mpisph/psort.h', 'mpisph/bodies_system.h', 'mpisph/tree_colorer.h', 'include/tree_topology/tree_types.h', 'include/tree_topology/filling_curve.h'], [('sort comparators', 'mpisph/bodies_system.h, mpisph/tree_colorer.h'), ('operator<', 'include/tree_topology/tree_types.h'), ('key comparisons', 'include/tree_topology/filling_curve.h')])
P('P20', 'Particle interactions write only to the particle they update',
  'Computing the density, pressure, forces, energy rates or time step of a particle changes nothing of its neighbours, so the loop over particles gives the same answer in any order or in parallel.',
  [S, H, I], 'all thread schedules and neighbour sets', NOT + '; races need particular interleavings',
  [K + 'default_physics.h', K + 'viscosity.h', 'include/tree_topology/tree_topology.h'], [('apply_in_smoothinglength, apply_all', 'include/tree_topology/tree_topology.h'), ('neighbour loops', K + 'default_physics.h')])
P('P21', 'All ranks call the same collectives in the same order',
  'No collective communication depends on data that differs between ranks: in a run of any driver, with any switches and any distribution of the particles, all ranks meet in the same collectives, with the same operation, length and root, in the same order, so no rank waits in a collective that another never enters. After each step all ranks agree on time, time step and iteration, and they stop together.',
  [S, I, C], 'all rank counts, data distributions, switches, paths', 'the tests are single-rank',
  ['app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc', 'app/drivers/wvt/main_driver.cc', 'mpisph/bodies_system.h', 'mpisph/psort.h', 'mpisph/io.h', 'mpisph/utils.h', 'include/tree_topology/tree_topology.h', K + 'analysis.h', 'include/diagnostic.h', K + 'boundary.h', K + 'wvt.h', 'include/params.h'],
  [('mpi_init_task', 'app/drivers/hydro/main_driver.cc'), ('update_iteration', 'mpisph/bodies_system.h'), ('scalar_output', K + 'analysis.h'), ('output', 'include/diagnostic.h'), ('psort', 'mpisph/psort.h'), ('reduce_*', 'mpisph/utils.h')],
  'co-interpretation of the code of all ranks over abstract memory; collectives are matched by operation, length, root and the conditions they are entered under', note='Tables of rank counts, particle distributions and switches; contents are unknown; the drivers are run for three passes with the distributed tree and the snapshots as collectives of their own, which are interpreted separately.')
P('P22', 'Every message between ranks reaches its address and is completed',
  'For any number of ranks and any pattern of message counts, including none and messages to oneself, the exchange helpers pair every message with a receiver expecting the same length, finish every request, and leave on every rank exactly the records addressed to it, ordered by sender. Reductions give every rank the minimum, maximum or sum over all ranks of each component.',
  [S, H, C], 'all rank counts, message counts and contents', 'the tests are single-rank',
  ['mpisph/utils.h'], [('mpi_allgatherv, mpi_alltoallv, mpi_alltoallv_p2p', 'mpisph/utils.h'), ('reduce_min, reduce_max, reduce_sum', 'mpisph/utils.h')], 'co-interpretation of the code of all ranks over abstract memory; provenance of every record; message matching and completion', note='Rank counts 1-5 and 7 with nine count patterns; record contents are unknown.')
P('P23', 'A snapshot restores every quantity it saved',
  'Every particle of a snapshot comes back on exactly one rank, for any number of writing and reading ranks, with every quantity a restart needs: position, velocity, mass, density, smoothing length, pressure, time step, identity, type, state and, when compiled in, internal energy; time and time step continue from it. Every dataset holds the quantity it is named after, for every particle once, and every file the number of dimensions. A run that continues its own output discards the later snapshots and leaves the files of other runs, and what it writes next can be restored; no run starts from another iteration than the one asked for. Particles of a file without identities get distinct ones.',
  [I, C, H], 'all particle counts, rank counts, dimensions, output modes, starting iterations', NOT,
  ['mpisph/io.h'], [('outputDataHDF5', 'mpisph/io.h'), ('inputDataHDF5', 'mpisph/io.h'), ('H5P_removePrefix, H5P_findIterationSnapshot', 'mpisph/io.h')],
  'co-interpretation of the code of all ranks over an abstract file system; provenance of every stored and restored value', note='HDF5 and directory calls are replaced by their contracts over an abstract disk shared by the ranks; a few particle and rank counts stand for any; values are free symbols.')
P('P24', 'Each parameter name sets exactly the parameter it names',
  'Every published parameter can be set by its name: setting it stores the given value (number, yes/no, text with or without quotes, or keyword, with a trailing comment removed) in that parameter and changes no other; unknown names and texts too long to store end the program without changing any parameter, and a parameter file applies each of its lines, skipping blank ones and comments.',
  [I, C], 'all parameter names and values', NOT,
  ['include/params.h'], [('READ_*_PARAM', 'include/params.h'), ('set_param', 'include/params.h')])
P('P25', 'The time step never exceeds the stability limits',
  'The time step chosen for each particle is bounded by its Courant, acceleration and energy limits, is positive for positive inputs, and the global step is the minimum over all particles of all ranks. A step shortened to meet an output ends no later than that output.',
  [I, C], 'all particle states', NOT,
  [K + 'default_physics.h'], [('compute_dt', K + 'default_physics.h'), ('set_adaptive_timestep', K + 'default_physics.h')])
P('P26', 'Artificial viscosity only dissipates',
  'Artificial viscosity vanishes for separating particles and is repulsive for approaching ones for non-negative coefficients, so it never extracts kinetic energy from heat.',
  [I, C], 'all pair states and coefficients', NOT,
  [K + 'viscosity.h'], [('artificial_viscosity', K + 'viscosity.h')])
P('P27', 'Reported conserved quantities are global sums',
  'The reported total mass, momentum, energy and angular momentum are sums over every particle of every rank, each of its own defining per-particle expression, and every value in a report stands under the name of that quantity.',
  [I, C], 'all particle sets, rank counts', NOT,
  [K + 'analysis.h', K + 'diagnostic.h'], [('compute_total_*', K + 'analysis.h')])
P('P28', 'Smoothing length follows the particle volume',
  'An updated smoothing length satisfies h = eta * support * (m/rho)^(1/D), per particle or as the mean over all particles, in every dimension.',
  [I, C], 'all masses and densities, kernels, dimensions', NOT,
  [K + 'default_physics.h', K + 'kernels.h'], [('compute_smoothinglength', K + 'default_physics.h')])
P('P29', 'Boundary conditions keep particles in the domain and mirror exactly',
  'A periodic step removes the images of the last step, puts a particle that crossed a periodic face back in by exactly one domain width in that direction and no other, and touches nothing else. Every particle within reach of periodic faces then has one wall-type image for each combination of those faces, shifted by whole widths, otherwise identical to it, with an identity no other particle of any rank has; the reach is the largest smoothing length of all ranks. Directions that are not periodic have neither.',
  [I, C], 'all positions, domains, dimensions', NOT,
  [K + 'boundary.h', K + 'default_physics.h'], [('pboundary_generate, pboundary_clean', K + 'boundary.h')], 'abstract interpretation of LLVM IR, co-interpreted for several ranks; regions of the domain decided by linear arithmetic', note='Up to three particles and ranks; every region of the domain a particle can be in (inside, near or beyond each combination of faces).')
P('P30', 'Coordinate transforms are inverse and relaxation steps respect the sphere',
  'Conversion to spherical coordinates and back is the identity away from the center, on either side of it. A relaxation step moves a particle by the step times its pseudo-acceleration, halved while that ends more than one per cent outside the sphere, mirrors at the sphere what is still outside, and takes density and size from the profile at the new place; the step shrinks linearly while cooling down. Neighbors, and near a reflective surface their mirror images and that of the particle itself, push along the line between them; near a frozen surface nothing acts along the radius. Rescaled smoothing spheres of all ranks fill the sphere the desired number of times. Relaxation stops when the share of all particles that still move is below its limit.',
  [I, C], 'all points, states, boundary types, dimensions', NOT,
  [K + 'wvt.h'], [('coordinate transforms, wvt_displacement, wvt_acceleration_*, compute_smoothinglength_wvt, check_convergence_wvt', K + 'wvt.h')], 'abstract interpretation of LLVM IR to value graphs in each region; identity test of the extracted formulas', note='Two or three neighbours stand for any number; formulas are compared region by region (octants; inside, at and beyond the surface).')
P('P31', 'Neighbour search returns every particle within reach, local or remote',
  'Every particle of a rank is given its neighbours exactly once: itself and every other particle, local or on another rank, within the mean of the two smoothing lengths, each once and unchanged, and no particle beyond the larger of the two smoothing lengths. A search around a point returns every local particle within the given radius.',
  [I, C, S], 'all particle configurations, tree shapes, rank counts and message orders', 'no test builds a tree', ['include/tree_topology/tree_topology.h', 'include/tree_topology/tree_types.h'], [('traversal_sph, find_in_radius, request_, recv_*', 'include/tree_topology/tree_topology.h')],
  'co-interpretation of the code of all ranks over abstract memory; geometric predicates replaced by their contracts; provenance of every neighbour', note=TREE + ' Message orders are a table of schedules.')
P('P32', 'The multipole approximation error is bounded by the opening angle',
  'The gravitational acceleration from the tree differs from the direct sum by no more than the error the opening angle admits.',
  [I, C], 'all mass distributions', NOT, [K + 'fmm.h'], [('MAC', 'include/tree_topology/tree_geometry.h')],
  na='an error bound over runtime mass distributions and tree shapes; P09 decides the expansion formulas only')
P('P33', 'Redistribution moves whole particles and every rank agrees on what moves',
  'The domain the keys are taken from encloses the particles of all ranks. An iteration clears the tree, gives each particle the key of its position in the current domain and redistributes the particles before it builds the tree. Redistribution aims at the present number of particles of every rank, sorts the local particles before searching splitters, and for whatever splitters the search returns sends to each rank exactly the particles that rank expects, in adjacent pieces of whole particles, then sorts what it received and keeps exactly that; a single rank only sorts.',
  [I, C, S], 'all particle contents, splitters and rank counts', 'the tests are single-rank', ['mpisph/psort.h', 'mpisph/bodies_system.h'], [('psort', 'mpisph/psort.h'), ('update_iteration', 'mpisph/bodies_system.h')])
P('P34', 'A restarted run continues bit for bit',
  'Continuing from a snapshot gives the same later states as the uninterrupted run.',
  [H], 'all interruption points', NOT, ['include/io.h', 'app/drivers'], [('restart', 'app/drivers')],
  na='single-precision or reordered reductions and re-sorted particles make the histories differ at run time; the data round trip is decided under P23')
P('P35', 'Standard flow problems converge to their analytic solutions',
  'Shock tubes, blast waves, noh and implosion problems approach the known solutions as the resolution grows.',
  [I, C], 'all resolutions', NOT, ['app'], [('drivers', 'app/drivers')],
  na='convergence of a discretised PDE is not a static property')
P('P36', 'Distributed tree exchanges and traversals end with every message received',
  'Any sequence of tree constructions, neighbour searches and gravity traversals ends on every rank: every request for remote cells is answered by a rank that holds them, every message is received by its addressee with the length it was sent, every request object is completed, no buffer is changed before its message has left, and no rank waits for a message that is not sent.',
  [S], 'all message orders', 'the tests are single-rank', ['include/tree_topology/tree_topology.h'], [('check_comms_, wait_comms_, request_, recv_*, share_nodes_', 'include/tree_topology/tree_topology.h')],
  'co-interpretation of the code of all ranks under a table of schedules; message matching, completion and progress', note=TREE + ' Message orders are a table of schedules; blocking sends wait for their receiver.')
P('P37', 'Conservation reports detect drift',
  'The conservation check flags a run exactly when a conserved quantity drifts beyond its tolerance.',
  [H], 'all run histories', NOT, [K + 'analysis.h'], [('check_conservation', K + 'analysis.h')],
  na='reads a text file whose column meaning is a runtime artefact; not decidable from the source without executing it')
P('P41', 'Domain range and global search radius cover every particle',
  'The domain box from which all ranks derive keys encloses every particle of every rank with its smoothing length and is the same on all ranks; the global search radius is the largest smoothing length; and a function applied to all particles reaches each local particle exactly once.',
  [I, C], 'all particle sets, rank counts, dimensions', NOT,
  ['mpisph/bodies_system.h', 'mpisph/utils.h'], [('mpi_compute_range, getSmoothinglength, apply_all', 'mpisph/bodies_system.h')])
P('P42', 'Every rank\'s tree covers all particles of all ranks exactly once',
  'After a tree is built or rebuilt, on any number of ranks, the root of every rank aggregates every particle of every rank; each cell aggregates exactly the particles below it and its children divide them; every own particle is exactly one leaf; remote particles and cells are marked as remote and name a rank that can supply what lies below them.',
  [I, C], 'all particle distributions over ranks', 'no test builds a tree; the tests are single-rank', ['include/tree_topology/tree_topology.h', 'include/tree_topology/tree_types.h', 'include/tree_topology/filling_curve.h'], [('build_tree, share_nodes_, cofm_update_, find_nodes_, exchange_boundaries_', 'include/tree_topology/tree_topology.h')],
  'co-interpretation of the code of all ranks over abstract memory; the composition of every cell is compared with the particles below it', note=TREE)
P('P43', 'Gravity counts every pair of particles exactly once',
  'In a gravity traversal every particle feels every other particle of all ranks exactly once, either directly or through one cell that contains it, whichever cells satisfy the opening criterion and however large the cells are; no particle feels itself; the criterion is asked with the centre and extent of two disjoint cells and the given angle; what a cell collects is handed to exactly the particles below it.',
  [I, C, S], 'all particle configurations, tree shapes, outcomes of the opening criterion and rank counts', 'no test builds a tree', ['include/tree_topology/tree_topology.h'], [('traversal_fmm', 'include/tree_topology/tree_topology.h')],
  'co-interpretation of the code of all ranks over abstract memory; every interaction is recorded and counted per pair', note=TREE + ' Message orders are a table of schedules.')
P('P44', 'Each step of a driver is one kick-drift-kick step with current rates',
  'The hydro and newtonian drivers advance every particle by v(n+1/2) = v(n) + dt/2 a(n), x(n+1) = x(n) + dt v(n+1/2), v(n+1) = v(n+1/2) + dt/2 a(n+1), and internal or total energy by the mean of its rates, whichever options are on; acceleration, gravity, density, pressure, sound speed, energy rates, smoothing length and time step in force after a step are those of the positions (energy rates also of the velocity) at its end, found in a tree of those positions. Relaxation drag and repulsion act exactly while the iteration is below the number of relaxation steps. The first pass only evaluates. Time and iteration count advance by the step, from the initial time given, and a snapshot holds the particles of the iteration and time it is labelled with.',
  [I, C, H], 'all particle states, step counts and combinations of options', 'no test runs a driver', ['app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc', K + 'integration.h', K + 'analysis.h'],
  [('mpi_init_task', 'app/drivers/hydro/main_driver.cc'), ('mpi_init_task', 'app/drivers/newtonian/main_driver.cc'), ('leapfrog_kick_*, leapfrog_drift', K + 'integration.h')],
  'abstract interpretation of the driver with one particle; algebraic identity of the step, provenance of every rate, order of the stages', note='One particle and one stand-in neighbour; gravity by multipoles is a function of positions and masses; three passes stand for any number.')
P('P45', 'Copies of remote particles are current whenever they are read',
  'In every driver, whatever a neighbour loop reads of other particles is what their owners hold at that moment: copies are renewed between a change of a quantity and its use, neighbours are looked up in a tree of the current positions and smoothing lengths, and no loop reads of others what it changes itself, so results do not depend on the number of ranks or the order of the particles.',
  [I, C, S], 'all combinations of options, distributions over ranks and orders of processing', 'no test runs a driver; the tests are single-rank', ['app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc', 'app/drivers/wvt/main_driver.cc', K + 'default_physics.h', K + 'viscosity.h', K + 'wvt.h'],
  [('mpi_init_task', 'app/drivers/hydro/main_driver.cc'), ('mpi_init_task', 'app/drivers/newtonian/main_driver.cc'), ('mpi_init_task', 'app/drivers/wvt/main_driver.cc')],
  'abstract interpretation of the driver with one particle; read and write sets of every neighbour loop, order of the stages', note='One particle and one stand-in neighbour; the renewal itself is decided under P31 and P42.')
P('P46', 'A run starts, writes and stops when its parameters say',
  'A run starts at the initial iteration and time. Screen lines, scalar reductions, particle snapshots and diagnostics are each governed by their own parameters only: with a positive period an output is written at the initial time and then once per period, at the first step that reaches it (an adaptive step lands on it exactly); otherwise at every iteration that is a multiple of a positive interval, and never if the interval is not positive. Only rank 0 writes reports. A run ends after the last iteration or past the final time, whichever is given and comes first, and not before; the tessellation driver also writes its last or converged state.',
  [I, H], 'all iterations, times, intervals and periods; whole runs of each driver', 'no test runs a driver', [K + 'analysis.h', K + 'default_physics.h', 'include/diagnostic.h', 'app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc', 'app/drivers/wvt/main_driver.cc'],
  [('screen_output, scalar_output, h5data_output', K + 'analysis.h'), ('set_initial_time_iteration', K + 'analysis.h'), ('advance_time, termination_criteria, set_adaptive_timestep', K + 'default_physics.h')],
  'abstract interpretation; extracted conditions compared with their definition; drivers interpreted with the passes over the particles left out', note='Runs use steps and periods that are sums of powers of two; the tessellation driver is analysed with output by iteration only.')
CLAIM = {}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                 'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    from check import WHERE
    man = {'version': 1, 'setup_cmd': 'make -C tool OUT=/verif/build', 'checks': [], 'not_applicable': [],
           'notes': 'Every check analyses /repo\'s current working tree by compiling small driver units to LLVM IR and interpreting them abstractly; no code of /repo is executed.'}
    for p in PROPS:
        if p['id'] in WHERE:
            man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                                  'technique': 'static analysis: ' + (p['technique'] or 'abstract interpretation of LLVM IR to gated value graphs; algebraic normal form and BDD'), 'level': 'other', 'level_note': p['note']})
        else:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'no check built yet'})
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
