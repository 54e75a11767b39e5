M = L + "mace.cpp"
MH = L + "mace.hpp"
SHIMNOTE = GEN + "Trusts the plain reference model, the stated tolerances, and a stand-in for the sphericart library (absent here). "
for _c in ("C01", "C02", "C03", "C04", "C05", "C18"):
    LEVELNOTE[_c] = SHIMNOTE
TECH["C01"] = "property-based testing: metamorphic relation (rotate, reflect, translate, relabel, reorder) on generated equivariant models and structures, with shrinking and replay"
TECH["C02"] = "property-based testing: generated models and structures, reported forces integrated against reported energies along generated deformations, with shrinking and replay"
TECH["C03"] = "property-based testing: generated models and neighbour graphs against an independent dual-number reference evaluation, with shrinking and replay"
TECH["C04"] = "property-based testing: metamorphic relations (union of separated parts, isolated atoms, neighbours placed at the cutoff) on generated models, with shrinking and replay"
TECH["C05"] = "stateful property-based testing: generated call histories on one evaluator against fresh evaluators, with shrinking and replay"
TECH["C18"] = "property-based testing and structured fuzzing of model files: equivalent spellings, reordered elements, damaged files, with shrinking and replay"

prop("C01", "Energies are invariant and forces equivariant under physical symmetries",
     "For every model whose couplings are equivariant and every structure: rotating, reflecting or translating all atoms, renumbering the atoms, or listing each atom's neighbours in another order leaves every atom's energy unchanged and rotates/renumbers the pair forces accordingly. The total virial is symmetric (no net torque).",
     ["inputs"], "all equivariant models, structures (clusters and periodic), orthogonal transformations, translations, relabellings and neighbour orders",
     "The repository's MACE tests need external model files and compare one or two structures with stored numbers; none applies a symmetry operation, and a symmetry must hold for every structure and operation.",
     [M, MH], [("spherical-harmonic axis order and gradient unshuffle", "MACE::compute_Y"), ("Clebsch-Gordan contraction and its adjoint", "MACE::compute_Phi1, reverse_Phi1"), ("channel mixing per l", "MACE::compute_A0, compute_A1, compute_H1")],
     ["MACE::compute_node_energies_forces results node_energies, node_forces"])
prop("C02", "Reported forces are the exact negative gradient of the reported energy",
     "For every model and structure, moving atoms or straining the cell changes the reported total energy by exactly minus the work of the reported pair forces: the pair forces are the derivative of the sum of node energies with respect to each pair vector, including the radial, angular, density-scaling, readout and short-range repulsion contributions of both layers.",
     ["inputs"], "all models (with and without scaling and repulsion), structures, periodic cells and deformations",
     "Gradient consistency is a statement about a derivative at every point of a high-dimensional space; the tests compare a single structure of an external model.",
     [M, MH, L + "zbl.cpp"], [("reverse pass", "MACE::reverse_H2 ... reverse_A0"), ("force accumulation into node_forces", "MACE::reverse_Phi1, reverse_A0, reverse_A0_scaled, reverse_A1_scaled")],
     ["MACE::compute_node_energies_forces results node_energies, node_forces"])
prop("C03", "The evaluator computes exactly the model described by its file",
     "For every model file and neighbour graph, each node energy is the sum of the element's reference energy, the linear readout of the first layer, the nonlinear readout of the second layer and (if enabled) its pair repulsion, with radial splines, spherical harmonics, element-dependent mixing, density scaling, polynomials and coupling coefficients taken as written in the file; pair forces are minus the derivative of that sum.",
     ["inputs"], "all models in the file format (elements, channels, l_max, L_max, coupling paths, monomials, optional parts) and all directed neighbour graphs, including self-images and repeated neighbours",
     "Only a handful of released models exist and the tests for them are skipped without downloads; indexing errors that depend on sizes (channels, elements, L_max, number of paths) cannot be settled by samples of one model family.",
     [M, MH, L + "cubic_spline_set.cpp", L + "multivariate_polynomial.cpp", L + "multilayer_perceptron.cpp"], [("stage-by-stage evaluation", "MACE::compute_*"), ("file parsing", "MACE::load_from_json"), ("pair-type index into the triangular spline table", "MACE::compute_R0, compute_R1, compute_A0_scaled, compute_A1_scaled")],
     ["MACE::compute_node_energies_forces results node_energies, node_forces"])
prop("C04", "The potential is local, additive over separated parts and smooth at r_cut",
     "For every model: parts of a system with no pair within r_cut have exactly the energies and forces they have alone; an atom without neighbours has exactly its tabulated energy; atoms more than two neighbour hops away do not affect an atom. A neighbour approaching r_cut from inside fades out continuously in energy and force, and every distance strictly below r_cut, to the last representable one, is accepted and gives finite results.",
     ["inputs"], "all models and structures; all partitions into separated parts; all distances below r_cut including the last floating-point values",
     "Locality and smoothness are relations between many inputs; molecular dynamics visits distances arbitrarily close to the cutoff which no test samples.",
     [M, L + "cubic_spline_set.cpp", L + "cubic_spline.cpp"], [("interval lookup at the end of the radial tables", "CubicSplineSet::evaluate_derivs"), ("sums over each node's own neighbours only", "MACE::compute_A0, compute_Phi1")],
     ["MACE::compute_node_energies_forces results node_energies, node_forces"])
prop("C05", "Results do not depend on what an evaluator computed before",
     "An evaluator reused for any sequence of systems (growing, shrinking, empty, without edges, interleaved with another evaluator) returns for each call exactly what a freshly loaded evaluator returns. Running the evaluation stage by stage, as simulation codes do, gives the same as the single call, and stages told to start their outputs from zero rather than add to them do so whatever the buffers held.",
     ["histories"], "all sequences of calls with arbitrary systems on one or several evaluators",
     "The work arrays are kept between calls and only partly reset; stale contents matter only for particular sequences of sizes, and the tests evaluate each object on one system.",
     [M, MH], [("work arrays resized but not cleared", "MACE members Y, R0, A0, M0, H1, Phi1, A1, M1, H2, *_adj, node_forces")],
     ["MACE::compute_node_energies_forces and the public stages"],
     [("work arrays", "A0, M0, H1, Phi1, dE_dPhi1, ... kept between calls", MH)])
prop("C18", "Model files are read faithfully and damaged ones are rejected",
     "Model files that differ only in key order, whitespace, number spelling or unknown extra keys load to the same potential, in the plain and in the Kokkos evaluator (either precision), and listing the elements in another order with all per-element data reordered accordingly gives the same energies and forces. A missing, truncated or non-JSON file, or one in which a required entry (at the top level, or of a polynomial table) is absent or of the wrong kind, raises an error instead of yielding an evaluator.",
     ["inputs", "faults"], "all model files, their respellings and element orders; all truncation points and single damaged entries",
     "The tests load intact files only.",
     [M, L + "mace_kokkos.cpp"], [("JSON parsing", "MACE::load_from_json, MACEKokkos::load_from_json")], ["MACE and MACEKokkos constructors; energies and forces of the loaded model"])

MK = L + "mace_kokkos.cpp"
KKNOTE = GEN + "Runs the real sources against a stand-in for Kokkos/KokkosKernels (absent here) with bounds-checked views, poisoned uninitialised memory, and seeded, shuffled or threaded schedules on the host; device memory spaces and the real back ends are not exercised. Trusts that stand-in, the reference model and the stated tolerances. "
for _c in ("C06", "C07", "C22"):
    LEVELNOTE[_c] = KKNOTE
TECH["C06"] = "property-based testing: generated models, graphs and call histories on the Kokkos evaluator (double and single) against an independent reference evaluation, with shrinking and replay"
TECH["C07"] = "property-based testing over generated schedules: shuffled league/team orders and real threads under the thread sanitizer, with bounds-checked views, against an independent reference evaluation"
TECH["C22"] = "property-based testing: generated inputs and call histories on the Kokkos building blocks against long-double reference models, with shrinking and replay"

prop("C06", "The Kokkos evaluator computes the same potential as the model defines",
     "For every model, in double and in single precision, and for every neighbour graph with all distances below r_cut, MACEKokkos returns node energies equal to the model definition (and hence to the plain evaluator) and pair forces equal to minus its exact derivative, up to the rounding of the chosen precision. This holds for every sequence of calls with systems of different sizes on one evaluator, including systems without atoms or without edges, and for running the public stages one by one (with or without the options that start outputs from zero); inputs are left unchanged.",
     ["inputs", "histories"], "all models, precisions, neighbour graphs (including neighbours anywhere below the cutoff) and call sequences on one evaluator",
     "No Kokkos evaluator test can run without external model files, and those compare a few stored structures in a fresh evaluator; buffer reuse, element pairs, both precisions and distances at the cutoff are not sampled.",
     [MK, L + "mace_kokkos.hpp", L + "radial_function_set_kokkos.cpp", L + "zbl_kokkos.cpp", L + "multilayer_perceptron_kokkos.cpp"],
     [("forward and reverse passes as team kernels", "MACEKokkos::compute_*, reverse_*"), ("radial tables per element pair", "RadialFunctionSetKokkos::evaluate, MACEKokkos::compute_R0"), ("monomials recursion on padded tables", "MACEKokkos::compute_M0, reverse_M0, compute_M1, reverse_M1"), ("growth-only buffers", "Kokkos::realloc conditions in each stage")],
     ["MACEKokkos::compute_node_energies_forces results node_energies, node_forces"],
     [("R0, R1, Y, A0, M0, H1, Phi1, A1, M1, H2 and adjoints", "work arrays kept between calls", L + "mace_kokkos.hpp")])
prop("C07", "Kokkos results do not depend on how work is scheduled",
     "For every assignment of league members, team sizes, team members and range iterations to threads and every order in which they run, the Kokkos evaluator and the Kokkos building blocks give the same results up to summation order; no two iterations or team members access the same memory without synchronisation when one of them writes; every view access is in range and no result depends on uninitialised storage.",
     ["schedules", "inputs"], "all team sizes, orders and interleavings of league, team and range iterations, for all models and systems",
     "The tests run each kernel with the back end's default schedule (one thread in the Python module); a race or a missing barrier shows only for particular interleavings and team sizes.",
     [MK, L + "radial_function_set_kokkos.cpp", L + "multilayer_perceptron_kokkos.cpp", L + "multivariate_polynomial_kokkos.cpp", L + "zbl_kokkos.cpp", L + "cubic_spline_set_kokkos.cpp"],
     [("team barriers between dependent loops", "team_member.team_barrier in each kernel"), ("scratch memory per team", "set_scratch_size / team_scratch"), ("atomic accumulation across nodes", "MACEKokkos::reverse_Phi1"), ("one writer per team", "Kokkos::single(PerTeam)")],
     ["MACEKokkos results; thread-sanitizer and bounds reports"])
prop("C22", "The Kokkos building blocks equal their mathematical definitions",
     "For every input, the Kokkos spline, spline set, radial function set (both precisions), network, polynomial and ZBL classes return the same mathematical functions and exact derivatives as their plain counterparts, through every constructor and evaluation form, for any call history and batch size. Points at least one spacing below zero or beyond the last node are rejected by the single spline.",
     ["inputs", "histories"], "all tables, element pairs, layer shapes, monomial sets, parameters, points, batch sizes and call sequences",
     "The Kokkos tests of the repository mirror the plain ones: fixed tables, three shapes or monomial lists, fresh objects, one batch size, and do not cover the View-based constructors or the radial function set.",
     [L + x + "_kokkos.cpp" for x in ("cubic_spline", "cubic_spline_set", "radial_function_set", "multilayer_perceptron", "multivariate_polynomial", "zbl")],
     [("coefficient tables", "constructors"), ("evaluation kernels", "evaluate*, compute*")],
     ["public methods of the *Kokkos classes"],
     [("node_values, node_derivatives, node_adjoints", "work arrays kept between calls", L + "multilayer_perceptron_kokkos.hpp")])

PS = "pair_symmetrix/pair_symmetrix_mace"
LMPNOTE = "Runs the real pair style against a stand-in for the LAMMPS classes it uses (LAMMPS is absent here), which decomposes the box over simulated ranks running as threads in one process; full neighbour lists with ilist the identity, as a plain (non-hybrid) run builds them. "
for _c in ("C08", "C21"):
    LEVELNOTE[_c] = SHIMNOTE + LMPNOTE
LEVELNOTE["C09"] = KKNOTE + LMPNOTE
LEVELNOTE["C21"] += "The kk style additionally uses the Kokkos stand-in. "
TECH["C08"] = "stateful property-based testing: generated models, structures, rank grids, communication modes and run histories of the pair style against the model evaluated on the undecomposed structure, with shrinking and replay"
TECH["C09"] = "stateful property-based testing: generated models, structures, rank grids, communication modes, schedules and run histories of the Kokkos pair style against the model evaluated on the undecomposed structure, with shrinking and replay"
TECH["C21"] = "property-based testing and structured fuzzing of LAMMPS command sequences against a model of which inputs are valid, with shrinking and replay"
prop("C08", "LAMMPS results do not depend on decomposition, communication mode or run history",
     "In a LAMMPS run with pair_style symmetrix/mace, total energy, per-atom energies, forces and virial of every step equal the model evaluated on the whole periodic structure, in each of the three modes (no_domain_decomposition, mpi_message_passing, no_mpi_message_passing), for every number and shape of subdomains, boundary condition and cell, including ranks without atoms and cells smaller than the cutoff; forces are added to those already present and positions are left alone. This holds for every sequence of steps, re-neighbourings, changed structures, modes changed by another pair_style and models reloaded by pair_coeff (from a new or the same file).",
     ["inputs", "histories"], "all models, structures, cells, rank grids, modes, energy/virial flags and sequences of steps",
     "The LAMMPS tests need a LAMMPS build and downloaded models and run single structures; ghost handling, message passing between ranks and buffer reuse depend on the decomposition and the history.",
     [PS + ".cpp", PS + ".h", M], [("neighbour selection and node lists", "PairSymmetrixMACE::compute_default, compute_mpi_message_passing, compute_no_mpi_message_passing"), ("halo exchange of H1 and its adjoint", "pack_forward_comm, unpack_forward_comm, pack_reverse_comm, unpack_reverse_comm"), ("force and virial accumulation", "compute_*")],
     ["Pair::eng_vdwl, eatom, virial and atom->f after the reverse communication of forces"],
     [("H1, H1_adj, node lists", "arrays kept between computes", PS + ".h")])
prop("C09", "Kokkos LAMMPS results do not depend on decomposition, mode, history or schedule",
     "In a LAMMPS run with pair_style symmetrix/mace/kk, total energy, per-atom energies, forces and virial of every step equal the model evaluated on the whole periodic structure, in each communication mode, for every decomposition, thread schedule, sequence of steps, re-neighbourings, changed structures, changed modes and reloaded models; no two threads access the same memory unsynchronised and all accesses are in range.",
     ["inputs", "histories", "schedules"], "all models, structures, cells, rank grids, modes, energy/virial flags, schedules and sequences of steps",
     "The repository's LAMMPS tests need a Kokkos LAMMPS build and downloaded models and run single structures with one schedule.",
     [PS + "_kokkos.cpp", PS + "_kokkos.h", MK], [("neighbour selection and node lists", "PairSymmetrixMACEKokkos::compute_default, compute_mpi_message_passing, compute_no_mpi_message_passing"), ("halo exchange", "pack_forward_comm_kokkos, unpack_forward_comm_kokkos, pack_reverse_comm_kokkos, unpack_reverse_comm_kokkos"), ("atomic force accumulation", "compute_*")],
     ["Pair::eng_vdwl, eatom, virial and atom->f after the reverse communication of forces; thread-sanitizer and bounds reports"],
     [("H1, H1_adj, node lists, k_eatom", "arrays kept between computes", PS + "_kokkos.h")])
prop("C21", "LAMMPS input is validated and atom types map to the named elements",
     "For every pair_style/pair_coeff/run sequence of both pair styles: unknown modes or too many arguments, element names that do not exist or are missing from the model, a number of elements different from the number of atom types, unreadable model files, no_domain_decomposition on several ranks, no atom map, newton off and per-atom virial requests each stop with an error; everything else runs, and every atom is treated as the element named for its type, whatever the order and multiplicity of types. The cutoff requested from LAMMPS is the model's, and the ghost region covers what the mode needs without shrinking a larger one the user asked for.",
     ["inputs", "histories"], "all argument lists, numbers of types, element sets and communication settings",
     "The tests use one valid input per model.",
     [PS + ".cpp", PS + "_kokkos.cpp"], [("argument checks", "settings, coeff"), ("element lookup", "coeff"), ("requirements and communication cutoff", "init_style, init_one")],
     ["errors raised; energies of the run that follows"])

CALC = "symmetrix/source/symmetrix/symmetrix_calc.py"
BD = "symmetrix/source/cpp/"
LEVELNOTE["C10"] = KKNOTE + "The package is imported from /repo's sources with its compiled part linked into the harness; the conversion of torch models is replaced by a recording stand-in (torch and mace are absent). "
LEVELNOTE["C17"] = SHIMNOTE + "Oracle: boost's spherical harmonics in long double. "
LEVELNOTE["C19"] = KKNOTE + "The compiled part of the package is linked into the harness. "
TECH["C10"] = "stateful property-based testing: generated models, structures, calculator options and edit histories of Atoms objects against the model evaluated on the structure, with shrinking and replay"
TECH["C17"] = "property-based testing: generated degrees, orders, angles and directions against an independent implementation, with shrinking and replay"
TECH["C19"] = "differential property-based testing: generated calls through the Python module against the same calls in C++, with shrinking and replay"
prop("C10", "The ASE calculator returns the model's energy, forces and stress",
     "For every Atoms object (any elements of the model, cluster or periodic in any directions, with full, partial or no cell, with isolated atoms, of any size) the calculator's energy, free energy, per-atom energies and forces are those of the model on the periodic structure, one entry per atom, and the stress is the strain derivative of the energy per volume; for every option combination (plain, Kokkos, float32) that is accepted. Results follow every later change of positions, cell, periodicity, elements or number of atoms and every alternation between Atoms objects. Elements missing from the model, unsupported dtype combinations and unreadable files raise errors; files of another kind are converted with the given options.",
     ["inputs", "histories"], "all models, Atoms objects, option combinations, orders of requested properties and sequences of edits",
     "The calculator tests need downloaded models and evaluate a few fixed structures; atoms without neighbours, partial cells, shrinking structures and reuse over different systems are not sampled.",
     [CALC, BD + "mace.cpp", BD + "mace_kokkos.cpp"],
     [("neighbour list to graph", "Symmetrix.calculate"), ("force and stress assembly", "Symmetrix.calculate"), ("file kind and options", "Symmetrix.__init__")],
     ["ASE Calculator results through Atoms.get_*"],
     [("evaluator", "one evaluator reused for all structures", CALC)])
prop("C17", "The spherical-harmonics functions equal their definition in every direction",
     "For every degree and order, sph_harm and real_sph_harm equal the standard complex (with Condon-Shortley phase) and real orthonormal spherical harmonics of the given angles; the xyz forms and the sphericart forms (single, and batched for any number of points) equal them in every direction, including the axes, the coordinate planes and the poles, whatever the length of the vector.",
     ["inputs"], "all degrees, orders, angles and non-zero vectors, all batch sizes",
     "The repository has no test of these functions; special directions are a set of measure zero that random sampling of points would not meet either.",
     [L + "spherical_harmonic.cpp", BD + "spherical_harmonic.cpp"],
     [("angles of a vector", "sph_harm_xyz, real_sph_harm_xyz"), ("real to complex combination", "sphericart_sph_harm, sphericart_complex")],
     ["free functions of spherical_harmonic.hpp / the Python module"])
prop("C19", "The Python module gives the results of the C++ library",
     "Every class and function exposed to Python, called with any accepted arguments (lists, tuples, arrays of any type that holds the values), returns or stores what the same C++ call returns or stores: values, gradients, output arrays, all intermediate quantities of the evaluators after every stage, including after quantities are assigned from Python; the arguments themselves are left unchanged, what C++ rejects raises in Python, and the package re-exports every name of the compiled module.",
     ["inputs", "histories"], "all arguments and argument types, all sequences of calls and assignments on the evaluators",
     "The tests call each binding with one or two arrays of the expected type and do not touch the stages and quantities of the evaluators.",
     [BD + x for x in ("mace.cpp", "mace_kokkos.cpp", "utilities_kokkos.hpp", "cubic_spline.cpp", "cubic_spline_set.cpp", "multilayer_perceptron.cpp", "multivariate_polynomial.cpp", "tools.cpp", "zbl.cpp", "spherical_harmonic.cpp", "multilayer_perceptron_kokkos.cpp", "multivariate_polynomial_kokkos.cpp", "cubic_spline_set_kokkos.cpp")],
     [("argument conversion", "bindings of MACE and MACEKokkos"), ("array shapes of assigned quantities", "set_kokkos_view")],
     ["attributes and return values of the Python objects"])

EX = "symmetrix/source/symmetrix/extract_mace_data.py"
LEVELNOTE["C20"] = GEN + "torch, e3nn and mace are absent: the conversion runs against stand-ins with their documented weight layouts and normalisations, and synthetic models whose radial functions are cubic, so that the tabulation is exact; trusts those stand-ins, the plain evaluation of the original model, and symmetrix's own evaluator (C03) for the converted one. "
TECH["C20"] = "differential property-based testing: synthetic MACE models converted with generated requests, converted and original model evaluated on generated graphs, with shrinking and replay"
prop("C20", "Converting a MACE model preserves its energies for the chosen elements",
     "For every supported two-layer MACE model (any elements, channels, L_max, with or without density normalisation and ZBL, one or several heads) and every choice of elements (numbers, numeric strings or symbols, in any order; none meaning all), head and number of spline points, the converted data evaluated by symmetrix gives the energies of the original model for structures of those elements, with elements listed in ascending order; the command line writes the same data to the requested file. Models or requests that cannot be represented (other numbers of layers, interaction kinds, l_max, pair repulsions, readout widths, singular mixing matrices, elements not in the model, unknown heads) raise an error.",
     ["inputs"], "all supported models, element subsets and spellings, heads, spline resolutions and command lines",
     "The repository has no test of the conversion that can run without downloaded models and torch; those it has cover a few released models.",
     [EX, "symmetrix/source/symmetrix/cli/extract_mace.py"],
     [("weight fusion and normalisation", "extract_mace_data"), ("element subset indexing", "extract_mace_data: model_i, indices"), ("symmetric contraction to monomials", "U_sparse, P_lmk"), ("path bookkeeping of the second layer", "compute_lem, compute_lme, compute_lelm1lm2"), ("compatibility checks", "extract_mace_data")],
     ["returned dictionary / written JSON file evaluated by MACE"])

# ---------------------------------------------------------------- C23
TECH["C23"] = "property-based testing over generated objects, call sequences and real thread interleavings (thread sanitizer), against the same objects used alone, with shrinking and replay"
LEVELNOTE["C23"] = SHIMNOTE
prop("C23", "Separate objects share nothing, even across threads and copies",
     "Distinct evaluators and building blocks (MACE, CubicSpline, CubicSplineSet, MultilayerPerceptron, MultivariatePolynomial, ZBL) and the free functions (spherical harmonics, combinatorial helpers) can be constructed and used at the same time from different threads, one object per thread, without data races and with exactly the results of using each alone. A building block copied, assigned or moved in the middle of its history, and an evaluator that is moved, behave like a freshly built one, and using a copy never affects its original.",
     ["schedules", "histories", "inputs"], "all sets of objects and models, call sequences, thread interleavings, and copy/assign/move points",
     "The tests use one object at a time in one thread and never copy one; hidden shared state (a static work array, a cache, a pointer into the source of a copy) shows only when two objects are alive and in use together.",
     [M, MH, L + "multilayer_perceptron.cpp", L + "multivariate_polynomial.cpp", L + "cubic_spline_set.cpp", L + "cubic_spline.cpp", L + "zbl.cpp", L + "spherical_harmonic.cpp", L + "tools.cpp"],
     [("work arrays are members, not globals", "MACE, MultilayerPerceptron, MultivariatePolynomial members"), ("value semantics of the building blocks", "implicit copy and move operations of the classes in the headers")],
     ["public methods of all classes of libsymmetrix without Kokkos, and its free functions"])

# ---------------------------------------------------------------- C24
TECH["C24"] = "property-based testing over generated directory layouts and histories of installations; the resulting trees are configured, built and run, with shrinking and replay"
LEVELNOTE["C24"] = GEN + "LAMMPS is absent: install.sh runs on stand-in trees with the directories and the library target it relies on, with stand-in sources that report their checkout; trusts cmake and those stand-ins. "
prop("C24", "install.sh makes any LAMMPS tree build with the checkout, however often run",
     "Run on any LAMMPS source tree (given by any relative, absolute or linked path, with spaces or punctuation in the directory names of tree and checkout, from its own or another directory), install.sh leaves the tree with the checkout's four pair style files, following later updates of the checkout, and with build instructions that configure and link the checkout's library exactly once; everything else in the tree's build instructions is kept. Running it again, after an update, after local edits, or from another checkout, gives the state of the last run alone. Called without exactly one argument or on something that is not a LAMMPS tree it fails and leaves build instructions alone.",
     ["inputs", "histories"], "all directory names and path forms, all earlier states of the tree, all sequences of runs",
     "The repository has no test of the script; the continuous integration runs it once on a fresh tree with plain names.",
     ["pair_symmetrix/install.sh"],
     [("links to the checkout's files", "ln -sf of the four files"), ("build instructions appended once", "the add_subdirectory/target_link_libraries block")],
     ["the LAMMPS tree after install.sh, as seen by cmake"])
