#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "tbplas/builder/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, tech=None,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech, note=note,
                  tech=tech or "TLA+ specification; TLC model checking and TLC "
                               "validation of traces recorded from the code",
                  observe=observe or []))


BNOTE = ("TLC explores the Builder state machine exhaustively from a small world "
         "(every call sequence up to a bound over a finite alphabet); histories "
         "drawn from the specification are replayed into the freshly built code "
         "and every recorded observation is judged by TLC. Between the sampled "
         "histories the correspondence is assumed. Numbers are small integers.")

prop("C01", "Hopping terms of a primitive cell form a conjugate-closed map",
     "After any sequence of adding, overwriting, querying and removing orbitals and hopping terms (singly, through "
     "a hopping dictionary, by trimming dangling orbitals or by cutting a periodic direction), the terms stored by a "
     "primitive cell are exactly those the sequence defines, where <i,0|H|j,R> and <j,0|H|i,-R>* are one and the same "
     "term whichever of the two is named. A query in either orientation returns the last value written, conjugated "
     "where needed, removing either orientation removes the term, and removing orbitals drops their terms and "
     "renumbers the rest without changing values.",
     ["histories", "inputs"],
     "all histories of orbital and hopping operations on a primitive cell, all cell indices (2 or 3 components, any "
     "sign), orbital pairs and complex energies",
     "The tests add and remove a handful of fixed terms; the property quantifies over all orders, orientations and "
     "renumberings.",
     [B + "base.py", B + "primitive.py"],
     [("IntraHopping, check_conj, _norm_keys, remove_orbitals, remove_rn", B + "base.py"),
      ("PrimitiveCell.add_hopping/get_hopping/remove_hopping/trim/apply_pbc/add_hopping_dict", B + "primitive.py")],
     BNOTE)
prop("C02", "Derived arrays always reflect the current model",
     "Whatever sequence of modifications and reads precedes it, a read of the arrays derived from a model (orbital "
     "positions and energies, hopping indices, energies and distances, Hamiltonian of a primitive cell; orbital "
     "indices, positions, energies, lattice vectors and hopping terms of a supercell; arrays of an inter-hopping "
     "container) returns the values of the model as it is at that moment, never those of an earlier version. Arrays "
     "that a sample has initialized change only by re-initialization, reset or an update of the sample or of one of "
     "its components, and after any of these they equal the current model.",
     ["histories"],
     "all interleavings of model modifications, unlock, update and reads over several cells, supercells, "
     "inter-hopping containers and samples",
     "Stale caches show only for particular modify/read/modify orders and particular values (e.g. values with equal "
     "hashes); tests read each array once after building.",
     [B + "primitive.py", B + "super.py", B + "sample.py"],
     [("PrimitiveCell.sync_orb/sync_hop fingerprints", B + "primitive.py"),
      ("OrbitalSet.sync_array fingerprints", B + "super.py"),
      ("Sample.init_*/reset_array", B + "sample.py")], BNOTE)
prop("C03", "Components in use are locked and updates reach all subscribers",
     "Building a supercell locks its primitive cell, and building a sample locks its supercells and inter-hopping "
     "containers; every modifying call on a locked object raises a lock error and changes nothing, reading it stays "
     "possible, and only an explicit unlock releases it. Updating an object (directly or through any chain of "
     "components) refreshes every supercell and every initialized sample array built on it, and locks the refreshed "
     "components again.",
     ["histories"],
     "all histories of construction, unlock, modification, update and reset over graphs of cells, supercells, "
     "inter-hoppings and samples, including shared components",
     "The tests lock and unlock single objects; sharing one component between several dependants and update chains "
     "are not explored.",
     [B + "base.py", B + "super.py", B + "sample.py"],
     [("Observable.lock/unlock/check_lock/update", B + "base.py"),
      ("OrbitalSet.sync_array re-lock", B + "super.py"),
      ("Sample.__init__, reset_array", B + "sample.py")], BNOTE)
prop("C04", "Rejected calls raise the documented error and change nothing",
     "A model-building call with illegal arguments (wrong vector lengths, orbital, cell or vacancy index out of "
     "range, diagonal hopping term, missing term, supercell too small or built from an empty cell, void or "
     "non-closed sample, ...) raises one of the exception classes documented for a violated condition. The call "
     "leaves orbitals, hopping terms, vacancies, modifiers, inter-hopping terms, lock states and arrays exactly as "
     "they were, even if only a later element of its arguments is illegal; legal calls never raise.",
     ["inputs", "histories"],
     "all legal and illegal argument combinations of the construction and modification calls, at any point of a "
     "history",
     "Tests check one illegal argument per call on a fresh model and never look at the state afterwards.",
     [B + "primitive.py", B + "super.py", B + "sample.py", B + "base.py", B + "exceptions.py"],
     [("argument checks before the first mutation", B + "primitive.py"),
      ("add_vacancies/set_vacancies/_check_id_pc", B + "super.py"),
      ("HopDict.__setitem__, InterHopping._norm_keys", B + "base.py")], BNOTE)
prop("C05", "Supercell orbital indices are a bijection that skips vacancies",
     "The orbitals of a supercell are numbered 0..N-1 in lexicographic order of (cell indices a, b, c, orbital index) "
     "with the vacancies left out and no gaps, where N is cells times orbitals minus distinct vacancies. Conversions "
     "between the two representations, one by one or as arrays, are inverse to each other, reject indices that are "
     "out of range or denote vacancies, and follow every addition, reset or trimming of vacancies.",
     ["inputs", "histories"],
     "all dimensions, numbers of orbitals and vacancy sets (in any order, with repetitions), after any history of "
     "vacancy changes",
     "Tests use one or two vacancy patterns; off-by-one renumbering errors need several vacancies in particular "
     "positions.",
     [B + "super.py", "tbplas/cython/super.pyx"],
     [("OrbitalSet.sync_array/orb_id_*", B + "super.py"),
      ("_id_pc2sc, _id_pc2sc_vac, build_vac_id_sc, build_orb_id_pc", "tbplas/cython/super.pyx")], BNOTE)
prop("C06", "Supercells replicate the primitive cell's hopping terms exactly once",
     "The hopping terms of a supercell are, up to conjugation, exactly one term for each primitive-cell term starting "
     "in each of its cells: wrapped along periodic directions, dropped where it leaves the supercell along an open "
     "direction or touches a vacancy. Each keeps its energy, and its distance vector points from the first orbital to "
     "the actual (unwrapped) image of the second, whatever the lattice shape, origin and position modifier; on-site "
     "energies and orbital positions are replicated likewise.",
     ["inputs", "configurations"],
     "all primitive cells, dimensions allowed for them, boundary conditions (all 8 combinations), vacancy sets and "
     "position modifiers",
     "Tests compare two algorithms with each other on graphene-like cells; mixed boundary conditions, out-of-plane "
     "terms and vacancies near borders are not enumerated.",
     [B + "super.py", "tbplas/cython/super.pyx"],
     [("SuperCell.get_hop/_init_hop_fast/_init_hop_gen", B + "super.py"),
      ("split_pc_hop, build_hop_pbc, build_hop_gen, build_orb_pos", "tbplas/cython/super.pyx")], BNOTE)
prop("C07", "Modifiers, trimming and inter-hoppings enter supercells and samples correctly",
     "A modifier term replaces the supercell's term between the same two orbitals whichever orientation is stored, or "
     "is appended if there is none, with its own energy and distance; trimming turns exactly the orbitals with at most "
     "one hopping term into vacancies and renumbers the modifiers. A sample is the concatenation of its supercells in "
     "the given order with all indices shifted accordingly, plus all inter-hopping terms between the right supercells "
     "with their distances, for any number and order of components.",
     ["inputs", "histories"],
     "all modifier terms, trimming at any point, and all samples of up to three supercells with up to two "
     "inter-hopping containers in any order",
     "Tests have one modifier example and one two-layer sample; orientation, repeated trimming and component order "
     "are not varied.",
     [B + "super.py", B + "sample.py", "tbplas/cython/super.pyx"],
     [("SuperCell.get_hop modifier branch, trim", B + "super.py"),
      ("find_equiv_hopping, get_orb_id_trim, build_inter_dr", "tbplas/cython/super.pyx"),
      ("Sample.init_hop", B + "sample.py")], BNOTE)
prop("C09", "Sample arrays keep one consistent scale through their lifecycle",
     "On-site energies and hopping energies of a sample are always the model's values divided by the same rescaling "
     "factor: the last one requested, or 1 after the hopping terms have been (re)built, regardless of the order of "
     "lazy initialization, forced re-initialization, rescaling, reset and updates. Positions and distances are never "
     "rescaled, and repeating a call changes nothing. A factor estimated by the code is the largest row sum of absolute "
     "values of the unscaled Hamiltonian, at any point of the lifecycle (so that no eigenvalue exceeds it), and saving "
     "the arrays and loading them into another sample reproduces arrays and factor.",
     ["histories"],
     "all histories of initialization, rescaling (given or estimated factor), fields, k-points, dump and load, reset, "
     "component update and reads",
     "Tests rescale a fresh sample once; order effects between lazy initialization and rescaling are not explored.",
     [B + "sample.py", "tbplas/cython/sample.pyx"],
     [("Sample.init_*/rescale_ham/reset_array", B + "sample.py")], BNOTE)

HNOTE = ("The matrices are specified exactly (Gaussian integers times phases that "
         "are multiples of 1/720 turn); TLC checks the algebra of the specification "
         "exhaustively on small instances and judges the matrices and arrays "
         "recorded from the code for randomly drawn models, plus agreement clauses "
         "for real-valued models. Between the drawn models the correspondence is "
         "assumed.")
prop("C08", "All Hamiltonian builders give the same Hermitian matrix",
     "For every model and k-point, the dense and sparse Hamiltonian and overlap matrix of a primitive cell equal "
     "H_ij(k) = e_i delta_ij + sum over terms <i,0|H|j,R> exp(2 pi i k.(R + r_j - r_i)) (convention 1) or exp(2 pi i k.R) "
     "(convention 2), and those of a sample equal the same sum over its hopping terms with the phase of their "
     "distances, in eV whatever the rescaling. All are Hermitian. The sparse matrices used by TBPM (build_ham_csr, "
     "build_ham_dxy in both algorithms, build_dxy_csr) hold exactly the sample's rescaled elements with the x and y "
     "distances of each, antisymmetric, on one shared index structure, omitting only on-site energies below the "
     "cutoff.",
     ["inputs", "configurations"],
     "all models (any lattice, several hopping terms per orbital pair, vacancies, boundary conditions, several "
     "supercells), k-points, conventions, cutoffs and rescaling factors",
     "Tests compare band structures of a few materials at a few k-points; signs of phases, complex energies, "
     "out-of-plane terms and mixed boundaries are not varied.",
     [B + "primitive.py", B + "overlap.py", B + "sample.py", "tbplas/cython/primitive.pyx", "tbplas/cython/sample.pyx"],
     [("PrimitiveCell.set_ham_dense/set_ham_csr, core.set_ham", B + "primitive.py"),
      ("Sample.set_ham_dense/set_ham_csr/build_ham_csr/build_dxy_csr/build_ham_dxy", B + "sample.py"),
      ("build_hop_k, fill_ham, build_ham_dxy_fast/safe, sort_col_csr", "tbplas/cython/sample.pyx"),
      ("Overlap", B + "overlap.py")], HNOTE)
prop("C10", "Magnetic field is a gauge-consistent Peierls phase on every bond",
     "Applying a field B multiplies the hopping term from orbital i to j of a sample by exp(i phi) with "
     "phi = (pi/4135.666734) B (x_j-x_i)(y_i+y_j) in gauge 0, -(pi/4135.666734) B (y_j-y_i)(x_i+x_j) in gauge 1 and half "
     "the sum of both in gauge 2, where the difference is the term's distance and the sum is over the orbital positions "
     "in nm. Magnitudes, on-site energies, positions and distances stay as they are, the Hamiltonian stays Hermitian, "
     "and the flux through every closed loop of open bonds is the same in all gauges. An illegal gauge raises "
     "ValueError and changes nothing; resetting the sample removes the field.",
     ["inputs", "configurations"],
     "all samples (any lattice, vacancies, modified positions, several supercells), field strengths of either sign and "
     "gauges, at any point of the sample's lifecycle",
     "Tests only check Landau levels of graphene in one gauge; sign and symmetry errors of the other gauges need "
     "bond-by-bond comparison.",
     [B + "sample.py", "tbplas/cython/sample.pyx"],
     [("Sample.set_magnetic_field, reset_array", B + "sample.py"),
      ("set_mag_field", "tbplas/cython/sample.pyx")], HNOTE)

prop("C15", "Lattice geometry and k-point generators are exact",
     "For every (also skewed or left-handed) lattice: reciprocal vectors satisfy a_i.b_j = 2 pi delta_ij, areas and "
     "volume are those spanned by the vectors (also through primitive cells and supercells, in nm), fractional and "
     "Cartesian coordinates convert into each other with respect to the origin, rotation is right-handed about the "
     "given axis and center, and generated lattice vectors have the requested lengths and angles. The k-mesh holds each "
     "point (i/na, j/nb, k/nc) once with the last index fastest; a k-path interpolates uniformly between the given "
     "points and reports where they are; path lengths accumulate Cartesian distances. Lists and arrays are equivalent; "
     "illegal lengths, axes and directions raise ValueError.",
     ["inputs"],
     "all lattices, origins, coordinates, angles, mesh sizes and paths",
     "Tests evaluate one hexagonal cell and one path; handedness, skew, origin and axis conventions are not varied.",
     ["tbplas/base/lattice.py", "tbplas/base/kpoints.py", B + "primitive.py", B + "super.py"],
     [("gen_reciprocal_vectors, frac2cart, cart2frac, rotate_coord, get_lattice_area/volume, gen_lattice_vectors",
       "tbplas/base/lattice.py"), ("gen_kpath, gen_kdist, gen_kmesh", "tbplas/base/kpoints.py")],
     "The integer-lattice formulas are specified in TLA+; TLC verifies their defining identities on all small lattices "
     "and judges the values recorded from the code for randomly drawn arguments.")

prop("C12", "Derived cells denote the crystal they are built from",
     "extend_prim_cell and reshape_prim_cell denote the same infinite crystal on the lattice M.lat: each of the "
     "n |det M| orbitals of the larger cell appears exactly once with its energy, every hopping term of the original "
     "crystal is kept with its energy and Cartesian displacement, and `extended` is multiplied by |det M| - also for skewed "
     "cells and orbitals outside the home cell. make_hetero_layer reshapes to the hetero-lattice. "
     "spiral_prim_cell rotates lattice, origin and orbitals about the z axis through the given center and shifts them "
     "along z, without touching terms. merge_prim_cell holds the orbitals and terms of all components at their "
     "Cartesian positions plus the inter-cell terms, leaves components as they were (locked ones included), and "
     "illegal dimensions, lattices, components or indices raise their documented errors.",
     ["inputs", "configurations"],
     "all primitive cells (skewed lattices, orbitals outside the home cell, any number of orbitals and terms), "
     "extensions, integer or rational transformations, angles, and component lists",
     "Tests reshape graphene to one rectangular cell; the denoted infinite crystal is never compared, so missing or "
     "duplicated images in skewed or shifted cells go unseen.",
     [B + "advanced.py", B + "primitive.py"],
     [("extend_prim_cell, reshape_prim_cell, make_hetero_layer, spiral_prim_cell, merge_prim_cell, "
       "PCInterHopping", B + "advanced.py")],
     "The denoted crystal is specified in TLA+ with exact integer arithmetic; TLC verifies on all small cells that "
     "the specified construction preserves it, and judges the cells recorded from the code.")

prop("C13", "Neighbor search returns exactly the pairs within the cutoff",
     "find_neighbors returns, each once and ordered by distance, exactly the pairs of an orbital of the (0,0,0) cell of "
     "the bra model and an orbital of the ket model in a cell of the requested range whose distance is positive and "
     "does not exceed the cutoff; rn, pair, displacement (from bra to ket, in nm) and distance of each term agree. Bra "
     "and ket may be primitive cells or supercells (vacancies and modified positions respected) in any combination, "
     "coincident orbitals are never neighbors, and cells without orbitals raise PCOrbEmptyError.",
     ["inputs", "configurations"],
     "all pairs of models (lattices, origins, orbitals outside the home cell), search ranges and cutoffs",
     "Tests count the neighbors of graphene at one cutoff; direction of rn, asymmetric ranges, ket cells and "
     "supercells need exact comparison.",
     [B + "advanced.py"], [("find_neighbors", B + "advanced.py")],
     "The neighbor set is specified in TLA+ on integer positions; TLC verifies its symmetry and monotonicity on all "
     "small cells and judges the lists recorded from the code for random models.")

prop("C14", "Slater-Koster and spin-orbit elements follow from symmetry",
     "For every displacement and every pair of s, p and d orbitals the two-center integral equals the rotationally "
     "covariant combination of the sigma, pi and delta parameters defined by Slater and Koster's table (independent of "
     "the length of the displacement and its number type); exchanging the orbitals and inverting the displacement "
     "gives the conjugate. The three spin-orbit evaluators (operator algebra and both tables) agree with <i|L.S|j> for "
     "every pair of orbitals and spins and form a Hermitian operator. Illegal orbital or spin labels and zero "
     "displacements raise ValueError.",
     ["inputs"],
     "all displacements, all 81 orbital pairs, all parameters, all spin pairs",
     "Tests compare with a second hand-written copy of the table at random vectors; covariance and the defining "
     "algebra (projectors, commutators) are not examined.",
     [B + "advanced.py"],
     [("SK.eval and its ss..dd methods", B + "advanced.py"),
      ("SOC.eval, SOCTable.eval, SOCTable2.eval, AtomicOrbital", B + "advanced.py")],
     "The integrals are specified coordinate-free and exactly in Z[sqrt 3]; TLC verifies that the blocks are "
     "projectors, the published table entries and the angular momentum algebra, and judges recorded values for all "
     "orbital pairs and sampled displacements.")

DG = "tbplas/diagonal/"
prop("C17", "Bands, eigenstates and DOS are those of the model's Hamiltonian",
     "For every model (primitive cell, sample, analytical FakePC, with or without overlap), k-points, convention and "
     "history of edits of the model, DiagSolver reports the spectrum of the Hamiltonian the model has at that time: "
     "calc_bands in descending order with the path length of gen_kdist and projections equal to the summed squared "
     "amplitudes on the selected orbitals (any iterable of indices); calc_states orthonormal eigenvectors as rows with "
     "ascending energies; the sparse solver the requested number (default int(0.6 num_orb)) of extremal eigenpairs; "
     "calc_dos the normalized sum of Gaussians or Lorentzians on the requested energy grid, weighted by projections "
     "and spin degeneracy. Bands do not depend on the convention. Illegal solver, basis or convention raise ValueError.",
     ["inputs", "histories", "configurations"],
     "all models, k-points, conventions, solvers, orbital selections, DOS parameters and edit histories",
     "Tests compare graphene with stored curves or look at plots; degenerate spectra, projections, spin degeneracy and "
     "models edited between two calculations need an exact reference per input.",
     [DG + "base.py", B + "primitive.py", B + "sample.py"],
     [("DiagSolver.calc_bands/calc_dos/calc_states", DG + "base.py"),
      ("_diag_ham_dense/_diag_ham_csr/_calc_proj", DG + "base.py"),
      ("PrimitiveCell/Sample.calc_bands, calc_dos", B + "primitive.py")],
     "The specification builds H(k) itself, checks recorded eigenpairs as certificates of its complete spectrum and "
     "derives bands, projections and DOS from them; TLC model checks the certificate on chains with exact solutions "
     "and judges edit/calculate histories recorded from the code.")

prop("C18", "Lindhard response functions evaluate the documented formulas",
     "For every primitive cell, k-mesh, chemical potential, temperature, broadening and edit history, "
     "calc_dyn_pol_regular and calc_dyn_pol_arbitrary (both backends) give g_s/(V N_k extended) sum |<k+q,l|exp(iqr)"
     "|k,j>|^2 (f_j - f_l)/(E_j - E_l + w + i delta), and calc_ac_cond gives the Kubo-Greenwood conductivity i g_s/"
     "(V N_k extended) sum_{m,n non-degenerate} (f_m - f_n)/(E_m - E_n) <n|v_a|m><m|v_b|n>/(E_m - E_n - w - i delta) "
     "with v = dH/dk, V being the cell area if dimension is 2 and the volume if it is 3; calc_epsilon is 1 - V(q) "
     "dyn_pol with the 2d or 3d Coulomb potential and calc_epsilon_q0 is 1 + 4 pi i sigma/(epsilon w). Energies are on "
     "the requested grid. Grid, fractional and Cartesian coordinates of k-points convert consistently and wrap into "
     "the first Brillouin zone. Illegal mesh, dimension or component raise ValueError.",
     ["inputs", "histories", "configurations"],
     "all cells, meshes, q-points on and off the mesh, components, thermodynamic parameters, backends and edit histories",
     "Tests compare the two backends with each other and draw curves for graphene; common errors of both backends, "
     "prefactors, off-diagonal components, 3d cells and edited cells are not examined.",
     [DG + "lindhard.py", "tbplas/cython/lindhard.pyx", "tbplas/fortran/lindhard.f90"],
     [("Lindhard.calc_dyn_pol_regular/arbitrary", DG + "lindhard.py"),
      ("Lindhard.calc_ac_cond, calc_epsilon, calc_epsilon_q0", DG + "lindhard.py"),
      ("prod_dp, prod_ac, dyn_pol, ac_cond kernels", "tbplas/fortran/lindhard.f90")],
     "The formulas are specified in fixed-point TLA+ over certified eigenpairs of the specification's own Hamiltonian; "
     "TLC verifies gauge invariance, vanishing q=0 response, reality and dissipation on exactly solvable chains and "
     "judges recorded responses of random cells.")

prop("C22", "Wilson-loop phases, crossing numbers and spin textures are exact",
     "Z2 returns, for every kb, the arguments of the eigenvalues of the product of "
     "overlap matrices of the occupied states around the closed ka loop: they do not "
     "depend on the phases of the eigenstates, on the point where the loop starts, or "
     "on whether its last point repeats the first. count_crossing counts strict sign "
     "changes about the reference, and reorder_phases follows well separated or "
     "straight crossing curves across the branch cut without touching its argument. "
     "SpinTexture returns the expectation values of the Pauli matrices of the "
     "eigenstates for either orbital order. All describe the model and the k-points "
     "as they are when the calculation is made, also after edits.",
     ["inputs", "histories"],
     "all Hermitian tight-binding models (also user-defined ones), occupations, loops "
     "and k-grids, and histories of model and grid edits between calculations",
     "The tests only plot the results; a loop that is not closed in a periodic gauge or "
     "a stale cache of wave functions still gives plausible curves.",
     [DG + "z2.py", DG + "magnetic.py", DG + "base.py"],
     [("Z2.calc_phases/reorder_phases/count_crossing", DG + "z2.py"),
      ("SpinTexture.update_states/split_spin/eval/k_cart", DG + "magnetic.py")],
     "small models (up to 4 orbitals, loops of up to 9 points); degenerate states are "
     "judged in groups, loops only where the occupied states are gapped; overlaps "
     "between non-orthogonal orbitals are not covered")

prop("C16", "Parallel runs give every process the serial result",
     "A range or list distributed over processes is split so that every item goes to exactly one process, in order, "
     "with no process getting two items more than another, also when there are more processes than items. The "
     "collective operations return the element-wise sum, mean or the master's data for arrays of either memory order "
     "and leave their input alone. Bands, projections, densities of states, eigenstates, Z2 phases, spin textures, "
     "Lindhard responses, TBPM correlation functions and their analyses computed with MPI finish on every process "
     "with the result of a serial run, for every number of processes; the number of random samples is rounded up to "
     "a multiple of the number of processes and the same samples are drawn; methods that only work serially raise "
     "RuntimeError on every process.",
     ["inputs", "schedules", "histories"],
     "all numbers of processes and items, array shapes and memory orders, and histories of calculations in one "
     "parallel program",
     "The test suite runs with one process only; nothing distributed is ever exercised.",
     ["tbplas/parallel.py", "tbplas/utils.py", DG + "base.py", DG + "lindhard.py", DG + "z2.py", DG + "magnetic.py",
      "tbplas/tbpm/solver.py", "tbplas/tbpm/analysis.py"],
     [("MPIEnv", "tbplas/parallel.py"), ("split_range, split_list", "tbplas/utils.py"),
      ("Solver._dist_sample", "tbplas/tbpm/solver.py")],
     "TLC explores all interleavings of a two-stage distributed calculation with up to 5 items and 4 processes; real "
     "programs are started with mpirun on 1 to 5 (thorough: 11) processes of one machine and compared with serial "
     "runs by TLC; scheduling of the real processes is left to the operating system")

prop("C19", "TBPM correlation functions are those of exact time evolution",
     "Solver evolves wave functions by exp(-iHt): calc_psi_t returns the evolved state at every requested step for any "
     "(also negative or zero) time scale, without touching its argument. The correlation functions for DOS, LDOS, AC "
     "and DC conductivity, dynamical polarization, Kubo-Bastin moments, quasi-eigenstates and the Haydock LDOS equal "
     "their defining expressions for the sample's Hamiltonian, its current and density operators and the average over "
     "the random initial states drawn for the given seed; one file per quantity holds exactly the returned data. They "
     "follow rescaling, magnetic fields and resets of the sample and changes of the configuration made between "
     "calculations, and illegal parameters raise the documented errors.",
     ["inputs", "histories"],
     "all samples, seeds, numbers of samples and steps, energies, q-points, kernels, temperatures, and histories of "
     "sample and configuration changes between calculations of one Solver",
     "Tests only compare plots or run to completion; wrong signs, time steps, normalizations and stale arrays survive.",
     ["tbplas/tbpm/solver.py", "tbplas/tbpm/config.py", "tbplas/fortran/tbpm.f90", "tbplas/fortran/propagation.f90",
      "tbplas/fortran/kpm.f90", B + "sample.py"],
     [("Solver.calc_*", "tbplas/tbpm/solver.py"), ("cheb_wf_timestep, Haydock_coef", "tbplas/fortran/propagation.f90"),
      ("tbpm_dos, tbpm_ldos, tbpm_accond, tbpm_dyn_pol, tbpm_dccond, tbpm_eigenstates, tbpm_kbdc",
       "tbplas/fortran/tbpm.f90")],
     "samples of 2 to 8 orbitals with small integer couplings; the expressions are evaluated by TLC in fixed-point "
     "arithmetic from certified eigenpairs; the average density matrix of the random states is reconstructed from "
     "probe samples and certified; correlation functions for many orbitals are covered through the same kernels only")

prop("C20", "Analyses of correlation functions follow their definitions",
     "Analyzer turns correlation functions into physical quantities by the documented expressions: energy, frequency "
     "and time grids follow from the rescaling factor at the time of the call; DOS and LDOS are normalized windowed "
     "Fourier transforms; AC conductivity with its Kramers-Kronig imaginary part, DC conductivity, diffusion "
     "coefficients, dynamical polarization, dielectric functions and Hall conductivity carry the documented prefactors "
     "for 2 and 3 dimensions, spin correction, extended cells, units and window functions. The arguments are not "
     "modified, and unsupported dimensions, units and parameters raise the documented errors.",
     ["inputs", "histories"],
     "all correlation functions, numbers of steps, windows, dimensions, temperatures and histories of parameter and "
     "rescaling changes between analyses with one Analyzer",
     "Tests plot single curves; prefactors, grids, end points and default arguments are not compared with anything.",
     ["tbplas/tbpm/analysis.py", "tbplas/fortran/analysis.f90", "tbplas/tbpm/config.py"],
     [("Analyzer.calc_*", "tbplas/tbpm/analysis.py"), ("cond_from_trace", "tbplas/fortran/analysis.f90"),
      ("window_hanning, window_exp, window_exp_ten", "tbplas/tbpm/analysis.py")],
     "numbers of time steps divide 180, so that Fourier phases are exact in the fixed-point specification; results are "
     "compared to about 1e-4 relative")

prop("C21", "Cells read from Wannier90 files carry the files' Hamiltonian",
     "The cell made from Wannier90 output has the lattice vectors of the .win file in its units, one orbital per "
     "Wannier centre in file order, and the terms H_ij(Q) = sum over R and the translations T with R + T = Q of "
     "H_ij(R) / (degeneracy(R) N_T), where without correction the only translation is zero: shifted terms that meet "
     "add up, whatever the order of the lines, the Hamiltonian at k = 0 is that of the uncorrected file and it is "
     "Hermitian. On-site terms become orbital energies and terms below the cutoff are dropped. Unknown units and a "
     "missing correction file raise the documented errors.",
     ["inputs"],
     "all sets of Wannier90 files: numbers of orbitals and cells, degeneracies, orders of cells, translations, units "
     "and cutoffs",
     "No test reads Wannier90 files, and the error shows only for degenerate Wigner-Seitz vectors or translations onto "
     "existing cells.",
     ["tbplas/adapter/wannier90.py"],
     [("read_lat_vec, read_orb_pos, read_hop, read_wsvec, apply_wsvec, wan2pc", "tbplas/adapter/wannier90.py")],
     "TLC consumes the elements of small files in every order; random files of up to 3 orbitals and 45 cells are "
     "converted by the code and the cells judged by TLC in exact integers")

prop("C23", "The ready-made materials have the symmetry of their crystals",
     "Every ready-made material (graphene with two and four sites, from scratch or reshaped, with s and p orbitals or "
     "with spin-orbit coupling, black phosphorus, antimonene with and without spin-orbit coupling, the four TMDC "
     "monolayers and MoS2 with spin-orbit coupling) has the documented orbitals, lattice and c-axis, and its band "
     "structure is the same at all k-points related by the point group of the lattice, time reversal or a reciprocal "
     "lattice vector. Sites exchanged by a symmetry of the crystal see the same local spectrum at every k-point; "
     "with spin-orbit coupling the bands come in Kramers pairs at the time-reversal invariant points (everywhere, in "
     "antimonene). Graphene's bands are t times the modulus of the structure factor; those of the rectangular cell "
     "are the folded bands of the primitive one for every t and c and for both ways to make it; with vanishing "
     "coupling antimonene has every spinless band twice. An unknown material raises NotImplementedError.",
     ["inputs"],
     "all materials, their parameters (c, t, coupling), and all k-points",
     "The tests plot or compare a few bands on one path; a wrong, missing or duplicated hopping term shows at general "
     "k-points, off that path, only as a broken symmetry.",
     ["tbplas/materials/graphene.py", "tbplas/materials/phosphorene.py", "tbplas/materials/antimonene.py",
      "tbplas/materials/xs2.py"],
     [("make_graphene_diamond, make_graphene_rect, make_graphene_sp, make_graphene_soc", "tbplas/materials/graphene.py"),
      ("make_black_phosphorus", "tbplas/materials/phosphorene.py"), ("make_antimonene", "tbplas/materials/antimonene.py"),
      ("make_tmdc, make_mos2_soc", "tbplas/materials/xs2.py")],
     "TLC checks the group and the folding on grids of k-points; bands and moments of the real materials are compared "
     "by TLC at related k-points on grids of up to 48 divisions, within the rounding of the published parameters; the "
     "parameter values themselves are not specified")

prop("C24", "Printed, drawn and exported models show the model",
     "print() lists and print_hk() spells out the primitive cell as it is at the time of the call: the printed matrix, "
     "evaluated at any k-point, is the Hamiltonian of the requested convention. Drawings of cells, supercells and "
     "samples show every orbital at its projected position with its energy as color, every hopping term whose modulus "
     "reaches the cutoff (with or without its conjugate, as line or as arrow from first to second orbital), the cell "
     "borders and the lattice vectors, in all six views; an illegal view raises ValueError. The drawing of a primitive "
     "cell covers the cells its terms reach and its own. Curves, phases, vectors, points and images carry exactly the given "
     "data with the marked k-points and limits, images on the requested grid. The cube file written by plot_wfc3d "
     "holds, on the requested grid, the superposition of hydrogen-like orbitals (real spherical harmonics, any quantum "
     "numbers, also at the nucleus) with the Bloch phases of the convention, normalized by the square root of the "
     "number of cells, and lists each atom once. Arguments stay as they were.",
     ["inputs", "histories"],
     "all cells, supercells and samples, their edit histories, views, cutoffs, and all wave functions, quantum numbers, "
     "grids and k-points",
     "The tests only run the plotting functions and never look at the result.",
     ["tbplas/builder/primitive.py", "tbplas/builder/visual.py", "tbplas/visual.py", "tbplas/cython/atom.pyx"],
     [("PrimitiveCell.print, print_hk, plot", "tbplas/builder/primitive.py"),
      ("SuperCell.plot, SCInterHopping.plot", "tbplas/builder/super.py"), ("Sample.plot", "tbplas/builder/sample.py"),
      ("ModelViewer", "tbplas/builder/visual.py"), ("Visualizer", "tbplas/visual.py"),
      ("set_cube", "tbplas/cython/atom.pyx")],
     "TLC checks orthonormality and parity of the specified orbitals exactly; drawings are read back from the artists "
     "of the axes (not from pixels) and cube values are compared by TLC on up to 18 grid points per file; orbitals up "
     "to n = 4, l = 3, Z = 3")

prop("C25", "Parameter fits minimize the weighted misfit",
     "ParamFit minimizes, over the parameters, the sum over k-points and bands of the squares of w_b (reference - fit), "
     "where w_b are the moduli of the given weights divided by their sum, or 1 if there are none. estimate_error "
     "returns these differences as a flat array, k-point by k-point, with their sign; fit returns parameters at which "
     "the gradient vanishes, for every starting point, options of the optimizer included. Weights of wrong length "
     "raise ValueError, a fit that does not converge raises RuntimeError. Neither the reference data, the weights nor "
     "the starting values passed are modified, and changing the weights array later has no effect.",
     ["inputs"],
     "all reference bands, weights of either sign or zero, starting values and models linear in their parameters "
     "(also built as primitive cells)",
     "The tests fit one model to itself and only look at the plot.",
     ["tbplas/builder/advanced.py"],
     [("ParamFit.__init__, estimate_error, fit", "tbplas/builder/advanced.py")],
     "TLC checks on small models that the stationarity condition characterizes the optimum; recorded misfits and fits "
     "are judged by TLC with the normal equations; models linear in up to three parameters with a unique optimum")

prop("C26", "Timers, progress bars, seeds and TBPM parameters keep exact records",
     "A timer reports, slot by slot in the order of their first tic, the time between the last tic/toc pair or the "
     "total over all completed pairs since the last reset, whatever other slots or timers do in between; stopping a "
     "slot that is not running, or reporting while any slot runs, raises RuntimeError and changes nothing. A progress "
     "bar reports exactly when the counter reaches a multiple of its scale unit. gen_seeds returns the requested "
     "number of distinct seeds whatever the entropy source delivers. A Config carries its own parameters: undefined "
     "names are rejected with ValueError by check_params, Solver and Analyzer, set_temperature sets 1/(k_B T), and "
     "what Solver saves read_config restores.",
     ["histories"],
     "all sequences of calls on several timers, bars and configurations, and all outputs of clock and entropy source",
     "The tests use one timer in one order; interleaved slots, repeated pairs and colliding seeds are not sampled.",
     ["tbplas/utils.py", "tbplas/tbpm/config.py", "tbplas/tbpm/solver.py"],
     [("Timer, ProgressBar, gen_seeds, print_banner_line, print_banner_block", "tbplas/utils.py"),
      ("Config, read_config", "tbplas/tbpm/config.py"), ("Solver.save_config", "tbplas/tbpm/solver.py")],
     "exhaustive model checking of two slots with ghost accounting over bounded time; recorded histories of the real "
     "helpers with a controlled clock and entropy source are judged by TLC")

# ---------------------------------------------------------------------------
NOT_CLAIMED = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b)
                                        for a, b in p["mech"]],
                             observe_at=p["observe"]))) + "\n")
    checks = [dict(property=p["id"],
                   quick_cmd=f"python3 run.py {p['id']} quick",
                   thorough_cmd=f"python3 run.py {p['id']} thorough",
                   evidence_file=f"evidence/{p['id']}.json",
                   technique=p["tech"], level="model_checking",
                   level_note=p["note"]) for p in P]
    man = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
               not_applicable=NOT_CLAIMED,
               notes="No hooks: the drivers use the public API of a scratch "
                     "build made from /repo's working tree by every check.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


main()
