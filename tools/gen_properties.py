#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "An edited model gives the same answers as a freshly built one",
  "After any sequence of add() and change() calls on hsingle, coulomb, tleads, mulst, tlst, dlst and, with phonons, velph, tlst_ph, dlst_ph, and of assignments of complete arrays to mulst, tlst and dlst/dband, with any number of solves in between, a builder that is solved reports the same eigenenergies, tunnelling and phonon matrix elements, density matrix and particle, energy and heat currents as a builder constructed from scratch with the resulting parameters. add() increments an existing entry or creates it, change() overwrites it or creates it, and nothing else changes.",
  ["histories", "configurations"],
  "every sequence of edit and solve operations up to the stated depth over an alphabet of edits (existing entry, new entry, diagonal, off-diagonal, complex, list/dict form), for every approach, compiled and Python",
  "test_builder does one add and one change per object from the initial state and compares with stored numbers; the result of chaining edits, of editing after a solve, or of editing an entry that did not exist before is not reached.",
  ["qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py", "qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/baths.py", "qmeq/approach/aprclass.py"],
  [("incremental update of many-body Hamiltonian", "qmeq/qdot.py: QuantumDot.add/change"),
   ("incremental update of the bare tunnelling matrix", "qmeq/leadstun.py: LeadsTunneling.add/change"),
   ("incremental update of the phonon coupling matrix", "qmeq/baths.py: PhononBaths.add/change"),
   ("re-preparation of arrays before a solve", "qmeq/approach/aprclass.py: Approach.prepare_kern/clean_arrays")],
  [("hsingle/coulomb dictionaries and the bare Hamiltonian", "must stay in step", "qmeq/qdot.py"),
   ("tleads dictionary, bare and rotated Tba, tleads_array", "must stay in step", "qmeq/leadstun.py")],
  ["builder.Ea", "builder.Tba", "builder.Vbbp", "builder.phi0", "builder.current", "builder.energy_current", "builder.heat_current"])

p("C02", "Compiled approaches agree with their pure-Python counterparts",
  "For every model, options and history of solves, each compiled approach (Pauli, Lindblad, Redfield, 1vN, 2vN, RTD, and the electron-phonon versions) produces the same density matrix, first-order amplitudes, kernel and particle, energy and heat currents as its py-prefixed Python counterpart, up to numerical round-off of the integrals they both evaluate.",
  ["inputs", "configurations", "histories"],
  "every combination of approach, integral type, indexing, symmetry, symq/matrix-free option, number of levels, leads and baths, band shape and removed states or coherences in the stated alphabet",
  "the tests compare both with stored numbers for one spinful double dot; asymmetric bands, one or three leads, complex amplitudes, restricted state spaces and repeated solves are not covered.",
  ["qmeq/approach/c_aprclass.pyx", "qmeq/approach/c_kernel_handler.pyx", "qmeq/approach/base/c_pauli.pyx", "qmeq/approach/base/c_lindblad.pyx", "qmeq/approach/base/c_redfield.pyx", "qmeq/approach/base/c_neumann1.pyx", "qmeq/approach/base/c_neumann2.pyx", "qmeq/approach/base/c_RTD.pyx", "qmeq/approach/elph/c_pauli.pyx", "qmeq/approach/elph/c_lindblad.pyx", "qmeq/approach/elph/c_redfield.pyx", "qmeq/approach/elph/c_neumann1.pyx", "qmeq/specfunc/c_specfunc.pyx", "qmeq/specfunc/c_specfunc_elph.pyx", "qmeq/wrappers/c_lapack.pyx"],
  [("duplicate implementations kept in step by hand", "qmeq/approach/base/*.py and c_*.pyx"),
   ("memory-view based kernel handler", "qmeq/approach/c_kernel_handler.pyx: KernelHandler")],
  [], ["builder.kern", "builder.phi0", "builder.phi1", "builder.current", "builder.energy_current", "builder.heat_current"])

p("C03", "Many-body operators are the second-quantised operators of the input",
  "For every single-particle Hamiltonian, Coulomb interaction, lead amplitude and phonon coupling the eigenenergies are those of the fermionic many-body Hamiltonian with correct anticommutation signs, the eigenvectors are orthonormal and diagonalise it within each charge (spin) sector, and the lead and phonon matrix elements are those of the corresponding fermionic operators between these eigenvectors. The documented options for Hermitian conjugation of hopping and Coulomb terms and for ordering of Coulomb indices hold, and with total-spin indexing every eigenstate has the stated total spin.",
  ["inputs", "configurations"],
  "every model in a bounded alphabet: up to four levels, every set of one or two non-zero hopping elements, every Coulomb index tuple, every lead amplitude position, with every indexing and option",
  "the tests check stored eigenvalues and matrix elements of a few Hamiltonians; fermionic signs for arbitrary operator and index positions are sampled at a handful of points.",
  ["qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/baths.py", "qmeq/indexing.py"],
  [("hopping and Coulomb matrix elements with signs", "qmeq/qdot.py: construct_ham_hopping, construct_ham_coulomb"),
   ("spin-adapted diagonalisation", "qmeq/qdot.py: construct_manybody_eigenstates_ssq_all"),
   ("tunnelling matrix and its rotation", "qmeq/leadstun.py: construct_Tba, rotate_Tba"),
   ("phonon matrix and its rotation", "qmeq/baths.py: elph_construct_Vbbp, elph_rotate_Vbbp")],
  [], ["builder.Ea", "builder.Tba", "builder.Vbbp", "qd.vecslst", "qd.hamlst"])

p("C04", "State and density-matrix indexing is a consistent bijection",
  "For every number of levels, indexing scheme and set of removed Fock states, the map between Fock states and indices is one-to-one and onto, states are grouped exactly by their charge, spin projection and total-spin multiplicity, and the reported state lists, shifts and counts agree. For every subset of states kept, each kept population and coherence has its own density-matrix index, indices are contiguous and complete, conjugate elements are identified with each other, and coherences dropped between kept states have none.",
  ["inputs", "configurations", "histories"],
  "every number of levels up to the bound, every indexing, every set of removed Fock states and every subset of kept states up to the bound",
  "test_indexing compares printed lists for nsingle=4 in each scheme without removed states or restricted state lists.",
  ["qmeq/indexing.py"],
  [("state lists per quantum number", "qmeq/indexing.py: construct_chargelst, construct_szlst, construct_ssqlst, enum_*"),
   ("density-matrix maps", "qmeq/indexing.py: StateIndexingDM.set_mapdm, StateIndexingDMc.set_mapdm, StateIndexingPauli.set_mapdm"),
   ("Fock state removal", "qmeq/indexing.py: StateIndexing.remove_fock_states")],
  [], ["si.get_ind", "si.get_state", "si.get_lst", "si.get_ind_dm0", "si.get_ind_dm1", "si.ndm0", "si.npauli", "si.nmany"])

p("C05", "First-order approaches solve the documented master equation",
  "For every model the density matrix and first-order amplitudes returned by the Pauli, Lindblad, Redfield and 1vN approaches, and the particle, energy and heat currents of every lead, are those of the stationary solution of the corresponding published master equation written directly in terms of the eigenenergies, tunnelling matrix elements and lead Fermi functions, for every integral type.",
  ["inputs", "configurations"],
  "every model in the bounded alphabet of levels, interactions, leads, bands, integral types and kept states, against an independently written dense superoperator reference",
  "the tests compare with numbers stored from an earlier run for one model, so they freeze rather than justify the equations, and only at one parameter point.",
  ["qmeq/approach/base/pauli.py", "qmeq/approach/base/lindblad.py", "qmeq/approach/base/redfield.py", "qmeq/approach/base/neumann1.py", "qmeq/approach/aprclass.py", "qmeq/approach/kernel_handler.py", "qmeq/specfunc/specfunc.py"],
  [("kernel generation", "qmeq/approach/base/*.py: generate_coupling_terms, generate_kern"),
   ("current generation", "qmeq/approach/base/*.py: generate_current"),
   ("placement of complex elements in the real kernel", "qmeq/approach/kernel_handler.py: KernelHandler.set_matrix_element")],
  [], ["builder.phi0", "builder.phi1", "builder.current", "builder.energy_current", "builder.heat_current"])

p("C06", "Stationary states are normalised and currents are conserved",
  "For every model and approach, a solve that reports success yields populations that sum to one and a state stationary under the reported kernel, the particle currents of all leads sum to zero, and the heat current of every lead equals its energy current minus chemical potential times particle current. For Pauli and Lindblad, populations are never negative and the density matrix is positive semidefinite; where the dot exchanges energy only with the leads and the approach conserves it (Pauli, and RTD without off-diagonal terms), energy currents sum to zero as well.",
  ["inputs", "configurations"],
  "every model of the bounded alphabet including degenerate levels, complex amplitudes, one to three leads, asymmetric bands and removed states, for all twelve approaches and the phonon ones",
  "no test checks a conservation law; the stored currents are for two leads at one parameter point.",
  ["qmeq/approach/aprclass.py", "qmeq/approach/c_aprclass.pyx", "qmeq/approach/base", "qmeq/approach/elph", "qmeq/wrappers/c_lapack.pyx"],
  [("normalisation row replaces one equation", "qmeq/approach/aprclass.py: solve_kern, generate_norm_vec"),
   ("current and heat current", "qmeq/approach/base/*: generate_current")],
  [], ["builder.phi0", "builder.kern", "builder.success", "builder.current", "builder.energy_current", "builder.heat_current"])

p("C07", "Equilibrium is thermal and carries no current; transport obeys the second law",
  "When all leads (and phonon baths) share one temperature and all leads share one chemical potential, every lead's particle, energy and heat current vanishes to the accuracy of the approach, and the Pauli, Lindblad and first-order populations of a dot whose transitions lie inside the bands are the grand-canonical ones. Away from equilibrium the total entropy production of the Pauli approach is never negative, and that of the Lindblad approach not beyond corrections of higher order in the coupling.",
  ["inputs", "configurations"],
  "every model of the bounded alphabet placed at equilibrium, and every bias and temperature pattern over two or three leads for the entropy statement",
  "no test places the system in equilibrium or looks at entropy production.",
  ["qmeq/approach/base", "qmeq/approach/elph", "qmeq/specfunc/specfunc.py", "qmeq/specfunc/specfunc_elph.py"],
  [("detailed balance of rates", "qmeq/specfunc/specfunc.py: func_pauli; qmeq/specfunc/specfunc_elph.py: FuncPauliElPh"),
   ("rates in and out of each state", "qmeq/approach/base/pauli.py, lindblad.py")],
  [], ["builder.phi0", "builder.current", "builder.energy_current", "builder.heat_current"])

p("C08", "Results do not depend on indexing, symmetry shorthand or state order",
  "The same physical model yields the same eigenenergies (as a set), populations per eigenstate and currents for every allowed indexing ('Lin', 'charge', 'sz', 'ssq'), and a model given with symmetry='spin' yields the same results as the model with both spin species written out explicitly. Sorting eigenstates for printing never changes results.",
  ["configurations", "inputs"],
  "every pair of indexings and every spin-symmetric model of the bounded alphabet, with every approach that accepts it",
  "tests compare each indexing with its own stored numbers for one model.",
  ["qmeq/indexing.py", "qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/baths.py", "qmeq/builder/validation.py"],
  [("duplication of spin-up entries to spin-down", "qmeq/qdot.py: make_hsingle_dict; qmeq/leadstun.py: make_tleads_dict, make_array; qmeq/baths.py: make_velph_dict"),
   ("per-sector construction and rotation", "qmeq/leadstun.py: rotate_Tba; qmeq/qdot.py: diagonalise")],
  [], ["builder.Ea", "builder.current", "builder.energy_current", "builder.heat_current"])

p("C09", "Results transform correctly under relabelling, gauge, shift and scaling",
  "Renumbering single-particle levels, leads or baths permutes the results accordingly; changing the phase of a level's or a lead's basis state leaves all currents unchanged; shifting all level energies and chemical potentials (and the band edges, where the integral type resolves them) by a constant leaves particle and heat currents unchanged; a lead split into two of the same chemical potential, temperature and band with the same total coupling carries the same total current; multiplying all energies, temperatures, bands and squared amplitudes' roots by the matching unit factor scales currents accordingly; a unitary change of the single-particle basis leaves currents unchanged.",
  ["inputs", "configurations"],
  "every permutation, phase pattern, shift, scale and basis rotation of the alphabet applied to every base model, for every approach",
  "tests have one labelling and one gauge.",
  ["qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/approach/base", "qmeq/approach/elph", "qmeq/specfunc"],
  [("fermionic signs per level position", "qmeq/qdot.py, qmeq/leadstun.py"),
   ("per-lead loops and accumulation", "qmeq/approach/base/*: generate_fct, generate_current")],
  [], ["builder.current", "builder.energy_current", "builder.heat_current"])

p("C10", "Solver options change how, not what, is solved",
  "For every model with a unique stationary state, all combinations of symq, norm_row (any population row), solmethod and, for the first-order approaches, matrix-free solution (with any starting vector) give the same density matrix and currents, whether chosen at construction or changed between solves in any order; a failed solve is reported through success rather than returned as an answer.",
  ["configurations", "histories"],
  "every combination of options and every history of option changes and solves up to the stated depth, compiled and Python",
  "the tests use each option once on one model from construction.",
  ["qmeq/approach/aprclass.py", "qmeq/approach/c_aprclass.pyx", "qmeq/approach/kernel_handler.py", "qmeq/approach/c_kernel_handler.pyx", "qmeq/wrappers/c_lapack.pyx"],
  [("option setters and re-preparation", "qmeq/approach/aprclass.py: symq, mfreeq, solmethod, norm_row setters, prepare_kern"),
   ("LAPACK wrappers", "qmeq/wrappers/c_lapack.pyx"), ("matrix-free action", "KernelHandlerMatrixFree")],
  [("kernel shape and solver", "must match current options", "qmeq/approach/aprclass.py")],
  ["builder.phi0", "builder.current", "builder.success"])

p("C11", "Switching the approach gives the same result as building with it",
  "Setting kerntype on an existing builder, by name or by approach class, any number of times and with solves, parameter edits and state restrictions before and after, gives the same results as a builder constructed with that kerntype, parameters and restrictions. Only a switch to an approach that needs a different kind of indexing may discard the selection of states and coherences (removed Fock states stay removed).",
  ["histories", "configurations"],
  "every sequence of kerntype switches over all approaches up to the stated depth, interleaved with solves, edits and restrictions, for plain, phonon and many-body builders",
  "test_builder switches once and compares the class only.",
  ["qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py"],
  [("replacement of the state indexing and approach objects", "qmeq/builder/builder_base.py: set_kerntype, change_si; qmeq/builder/builder_elph.py: change_si, create_si_elph")],
  [("si shared by builder, qd, leads, baths, approach", "all must refer to the current one", "qmeq/builder/builder_base.py")],
  ["builder.kerntype", "builder.phi0", "builder.current"])

p("C12", "Restricting the state space is exact, repeatable and reversible",
  "remove_states keeps exactly the states less than dE above the lowest one, remove_coherences exactly the coherences between states closer than dE, remove_fock_states exactly the remaining Fock states, in any order and number of calls with solves in between; the solution equals that of the master equation restricted to the kept elements, and use_all_states restores the unrestricted result of the remaining Fock states (Fock states once removed stay removed). Each of remove_states, remove_fock_states and use_all_states defines the state space anew, with all coherences between the kept states.",
  ["histories", "configurations"],
  "every sequence of restriction, restoration and solve operations up to the stated depth over several windows, for every approach and builder kind that supports them",
  "tests apply each restriction once from the initial state and check counts.",
  ["qmeq/builder/various.py", "qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py", "qmeq/indexing.py", "qmeq/approach/aprclass.py"],
  [("kept-state lists and density-matrix maps", "qmeq/builder/various.py: remove_states, remove_coherences, use_all_states"),
   ("invalidation of prepared arrays", "si.states_changed in qmeq/approach/aprclass.py: prepare_kern")],
  [("kept states, element maps, prepared arrays", "must agree at every solve", "qmeq/indexing.py")],
  ["si.statesdm", "si.ndm0", "builder.phi0", "builder.current"])

p("C13", "Many-body input gives the same results as the single-particle model it came from",
  "A many-body builder given the eigenenergies, charges and tunnelling (and phonon) matrix elements of a model yields the same density matrix and currents as the single-particle builder it came from, for every approach and for any ordering of the many-body states and any charge offset.",
  ["inputs", "configurations"],
  "every base model, every approach, every permutation of the many-body states up to the bound and charge offsets",
  "tests compare one ordered list against stored currents.",
  ["qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py"],
  [("state lists from charges", "qmeq/builder/builder_base.py: BuilderManyBody._init_state_indexing")],
  [], ["builder.phi0", "builder.current", "builder.energy_current"])

p("C14", "Multithreaded solves do not depend on thread count or schedule",
  "For every number of threads and every assignment and interleaving of work to threads, a compiled approach produces the same kernel, density matrix and currents as single-threaded execution, and no two threads ever access the same memory location in conflict (other than storing the same constant flag).",
  ["schedules", "configurations"],
  "every schedule of the parallel loops (reduced to one representative per equivalence class by recorded access footprints) and every distribution of iterations over up to the stated number of threads",
  "the tests run with one thread.",
  ["qmeq/approach/c_aprclass.pyx", "qmeq/approach/base/c_RTD.pyx", "qmeq/approach/base/c_neumann2.pyx", "qmeq/approach/c_kernel_handler.pyx", "qmeq/approach/base/c_pauli.pyx", "setup.py"],
  [("each iteration writes only its own rows", "qmeq/approach/c_aprclass.pyx: generate_kern"),
   ("per-thread accumulation buffers", "qmeq/approach/base/c_RTD.pyx")],
  [], ["builder.kern", "builder.phi0", "builder.current"])

p("C15", "Special functions and transition integrals are accurate everywhere",
  "The Fermi and Bose functions, digamma function, Hilbert transform, diagram integrals and the lead and phonon transition integrals return, in the compiled and the Python version, the value of their defining expression for every argument including far tails, band edges, asymmetric bands and exact degeneracies, satisfy the symmetry and sum rules of that expression, and do not depend on which values were requested before.",
  ["inputs", "histories"],
  "every point of a dense bounded grid of arguments, every integral type and sign, and every order of calls where values are cached",
  "test_specfunc checks a dozen argument values against stored digits.",
  ["qmeq/specfunc/specfunc.py", "qmeq/specfunc/c_specfunc.pyx", "qmeq/specfunc/specfunc_elph.py", "qmeq/specfunc/c_specfunc_elph.pyx"],
  [("closed forms, principal values and cut-offs", "qmeq/specfunc/specfunc.py: func_pauli, func_1vN, phi, fermi_func, bose"),
   ("diagram integrals with degenerate limits", "qmeq/specfunc/specfunc.py: integralD, integralX"),
   ("phonon integrals", "qmeq/specfunc/specfunc_elph.py")],
  [], ["qmeq.specfunc functions"])

p("C16", "2vN iterations resume exactly and follow their integral equation",
  "For every split of n iterations into consecutive solves with restartq=False the result after n iterations is the same as from one solve with n iterations; a solve with restart is independent of earlier solves; every iteration is recorded once in order and the user callback runs once after each. For non-interacting levels the iteration converges to the exact transmission result.",
  ["histories", "configurations"],
  "every composition of the iteration count into solve calls up to the bound, interleaved with parameter changes, for the compiled and Python versions",
  "tests perform one run of a few iterations and compare with stored currents.",
  ["qmeq/approach/base/neumann2.py", "qmeq/approach/base/c_neumann2.pyx", "qmeq/approach/aprclass.py"],
  [("restart versus continue", "qmeq/approach/aprclass.py: ApproachBase2vN.solve/restart/iteration"),
   ("grid and kernel iteration", "qmeq/approach/base/neumann2.py: iterate, get_grid_ext, make_Ek_grid")],
  [], ["builder.niter", "builder.iters", "builder.current", "builder.phi0"])

p("C17", "Builders never alter their inputs or each other",
  "Constructing, editing, restricting and solving a builder never modifies any object the caller passed in, and operations on one builder, interleaved in any order with operations on another built from the same arguments (including default ones), never change the other's parameters or results.",
  ["histories", "inputs"],
  "every interleaving of operations on two builders sharing their argument objects up to the stated depth, and every operation with every argument form",
  "every test uses fresh arguments and one builder at a time.",
  ["qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py", "qmeq/builder/various.py", "qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/baths.py", "qmeq/indexing.py"],
  [("deep copy of constructor arguments", "qmeq/builder/builder_base.py: ModelParameters"),
   ("conversion to private dictionaries and arrays", "qmeq/qdot.py: make_hsingle_dict; qmeq/leadstun.py: make_tleads_dict, make_array")],
  [], ["caller's arguments", "builder.hsingle", "builder.tleads", "builder.current"])

p("C18", "Every accepted input format describes the same model",
  "Giving hsingle, coulomb, tleads, mulst, tlst, dband, velph, tlst_ph or dband_ph as dictionary, list or array, with entries in any order or orientation, zero entries, conjugate entries written out or left to herm_hs and herm_c, scalar, symmetric or asymmetric bands, yields the same model and results; the same holds for the arguments of add() and change().",
  ["inputs", "configurations"],
  "every supported form of each argument, every entry order up to the bound, for construction, add and change, with and without spin symmetry",
  "tests use one or two forms of some arguments.",
  ["qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/baths.py"],
  [("normalisation to dictionaries", "qmeq/qdot.py: make_hsingle_dict, make_coulomb_dict; qmeq/leadstun.py: make_tleads_dict; qmeq/baths.py: make_velph_dict"),
   ("normalisation to arrays", "qmeq/leadstun.py: make_array, make_array_dlst")],
  [], ["builder.Ea", "builder.Tba", "builder.mulst", "builder.tlst", "builder.dlst", "builder.current"])

p("C19", "Reported states and matrix elements match the solution",
  "For every approach, indexing and restriction, get_phi0 returns the element of the Hermitian density matrix for the given eigenstates (zero for elements not kept), get_phi1 the first-order amplitude consistent with the lead's particle current, and print_state, print_all_states and sort_eigenstates report each eigenstate's energy, charge, spin and Fock-state composition exactly and in the requested order, without changing the solution.",
  ["inputs", "configurations", "histories"],
  "every pair of eigenstates, every approach and indexing, every print and sort option of the alphabet, before and after restrictions",
  "tests look up a few elements for one model, and print one state.",
  ["qmeq/builder/various.py", "qmeq/builder/builder_base.py"],
  [("element look-up", "qmeq/builder/various.py: get_phi0, get_phi1"),
   ("printing and sorting", "qmeq/builder/various.py: print_state, print_all_states, sort_eigenstates, construct_Ea_extended")],
  [], ["builder.get_phi0", "builder.get_phi1", "builder.print_state", "builder.print_all_states"])

p("C20", "Electron-phonon approaches solve the documented master equation",
  "With phonon baths, the Pauli, Lindblad, Redfield and 1vN density matrix and currents are those of the published master equation including phonon absorption and emission between equal-charge states; without phonon coupling they equal the plain builder's results; phonons never carry charge, and two baths at one temperature act as one bath with combined rates.",
  ["inputs", "configurations"],
  "every model of the bounded alphabet with zero to two baths, real and complex couplings, both phonon integral types, default and user spectral functions and every approach, against an independent dense reference",
  "tests compare with stored numbers for one model with one coupling pattern.",
  ["qmeq/approach/elph", "qmeq/baths.py", "qmeq/builder/builder_elph.py", "qmeq/specfunc/specfunc_elph.py"],
  [("phonon kernels", "qmeq/approach/elph/*.py: generate_coupling_terms"),
   ("phonon rates", "qmeq/specfunc/specfunc_elph.py")],
  [], ["builder.phi0", "builder.current", "builder.energy_current", "builder.heat_current"])

p("C21", "RTD is the second-order expansion of the exact transport problem",
  "For every model, RTD reduces to the Pauli result as the coupling goes to zero with a correction of relative order of the squared amplitude, is independent of the off-diagonal option when no coherences exist, is additive in its lead-resolved kernels, conserves probability and charge order by order, and for non-interacting levels reproduces the exact current through that order.",
  ["inputs", "configurations"],
  "every model of the bounded alphabet with one to three leads and up to three levels, with and without off-diagonal corrections, over a geometric series of couplings",
  "tests compare stored numbers of one model.",
  ["qmeq/approach/base/RTD.py", "qmeq/approach/base/c_RTD.pyx", "qmeq/approach/kernel_handler.py"],
  [("second-order diagrams", "qmeq/approach/base/RTD.py: generate_row_2nd_order and off-diagonal generators"),
   ("diagram integrals", "qmeq/specfunc/specfunc.py: integralD, integralX")],
  [], ["builder.phi0", "builder.current", "builder.energy_current"])

p("C22", "Staged and repeated solves give the same answer as one full solve",
  "Solving again without changes reproduces the result exactly; any sequence of solves with the qdq, rotateq, masterq and currentq stages switched on and off leaves each result equal to that of the stages last performed on the current parameters, so that performing the stages separately equals one full solve.",
  ["histories", "configurations"],
  "every sequence of staged solves and parameter changes up to the stated depth for every approach and builder kind",
  "tests call solve() once with all stages on.",
  ["qmeq/approach/aprclass.py", "qmeq/approach/c_aprclass.pyx", "qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/baths.py"],
  [("stage switches", "qmeq/approach/aprclass.py: Approach.solve"),
   ("array reuse between solves", "qmeq/approach/aprclass.py: prepare_kern, clean_arrays"),
   ("rotation from the bare matrices", "qmeq/leadstun.py: LeadsTunneling.rotate")],
  [], ["builder.phi0", "builder.current", "builder.Tba", "builder.Ea"])

p("C23", "Unsupported option values fall back to the announced default",
  "For every combination of kerntype, itype, itype_ph, mfreeq, indexing and symmetry, supported or not, at construction and, where they can be set later, in any order of settings, switches and solves, the effective options are the documented substitutes, a warning is printed exactly when something was replaced, a refused setting leaves the builder usable and unchanged, and the results equal those of a builder constructed with the substitutes.",
  ["configurations", "histories"],
  "the full product of valid and invalid option values at construction, every history of settings up to the stated depth",
  "tests only check that a few invalid values produce the default attribute.",
  ["qmeq/builder/validation.py", "qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py", "qmeq/approach/aprclass.py"],
  [("validation of options", "qmeq/builder/validation.py"),
   ("switching", "qmeq/builder/builder_base.py: BuilderBase.set_kerntype"),
   ("matrix-free flag", "qmeq/approach/aprclass.py: Approach.mfreeq")],
  [], ["builder.kerntype", "builder.itype", "builder.indexing", "builder.mfreeq", "standard output", "builder.current"])

p("C24", "Single symmetry sectors can be diagonalised and the basis changed at any time",
  "For every indexing (Lin, charge, sz, ssq), with and without removed Fock states, and for every history of diagonalising single sectors (diagonalise_charge with charge; charge and sz; charge, sz and ssq), full diagonalisations, setting of the energies, edits and changes of basis: the stored values and vectors of each sector are the complete orthonormal eigensystem of the Hamiltonian that was current when the sector was last diagonalised (with definite total spin for ssq) and are what the call returned; set_Ea() assembles exactly these energies; rotate() with the procedure of the indexing and with the full 'Lin' procedure both give the bare amplitudes in the basis of the stored vectors, use_Tba0()/use_Vbbp0() give the Fock-basis amplitudes; and a solve without diagonalisation and rotation uses precisely those.",
  ["histories", "configurations"],
  "every history up to the stated depth over sector diagonalisations, edits and basis changes, in every indexing; every order of the sectors for small dots",
  "the tests diagonalise everything once and rotate once with the default procedure; sector calls, the 'Lin' procedure on sz/ssq dots and the Fock-basis switches are never executed.",
  ["qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/baths.py", "qmeq/indexing.py"],
  [("sector diagonalisation", "qmeq/qdot.py: QuantumDot.diagonalise_charge"),
   ("eigenstates of total spin", "qmeq/qdot.py: construct_manybody_eigenstates_ssq"),
   ("full basis matrix", "qmeq/leadstun.py: construct_full_pmtr"),
   ("rotation", "qmeq/leadstun.py: rotate_Tba, qmeq/baths.py: elph_rotate_Vbbp")],
  [("valslst/vecslst per sector", "may belong to different Hamiltonians until all sectors are diagonalised again", "qmeq/qdot.py"),
   ("Tba and Tba0, Vbbp and Vbbp0", "rotated and bare amplitudes", "qmeq/leadstun.py, qmeq/baths.py")],
  ["qd.valslst", "qd.vecslst", "qd.Ea", "leads.Tba", "baths.Vbbp", "builder.current"])

p("C25", "An approach defined by the user is run correctly",
  "For every class derived from Approach or ApproachElPh (or from a built-in approach, compiled or Python) given as kerntype at construction or later, in every indexing and with any removed Fock states, states or coherences: the builder uses that class and its name; every term it adds through its kernel handler for elements (b,b') and (a,a') with set_energy, set_matrix_element or set_matrix_element_pauli acts on the density matrix exactly as the corresponding dense superoperator, in the kernel and in the matrix-free form; the stationary state found with any symq, solmethod, norm_row or matrix-free method, the elements read back through the handler and the currents the class computes from them agree with the dense solution; switching between user and built-in approaches, restrictions and edits leave no trace in the results of either; and a derived class without changes gives the results of the class it derives from.",
  ["inputs", "configurations", "histories"],
  "every pair of density-matrix elements and both quadratures; every combination of options, indexing and restriction in the alphabet; every switching history up to the stated depth",
  "no test defines an approach of its own; the placement of elements is only seen through the stationary states of the built-in approaches for one model.",
  ["qmeq/approach/aprclass.py", "qmeq/approach/kernel_handler.py", "qmeq/builder/builder_base.py", "qmeq/builder/validation.py"],
  [("placement of superoperator elements", "qmeq/approach/kernel_handler.py: KernelHandler, KernelHandlerMatrixFree"),
   ("generation and solution of the kernel", "qmeq/approach/aprclass.py: Approach.generate_kern/solve_kern/generate_vec"),
   ("choice of the class", "qmeq/builder/builder_base.py: BuilderBase.get_approach_class")],
  [], ["builder.appr.kern", "builder.phi0", "builder.current", "builder.kerntype"])

p("C26", "The options of the approximation can be changed between solves",
  "For every approach and for every history of setting itype, dqawc_limit, itype_ph, eps_elph, bath_func, off_diag_corrections (RTD) or kpnt (2vN), of edits of the parameters and bands, restrictions, switches of the approach and of symq and mfreeq, and of solves: the attribute reads back what was set, and every solve gives the energies, density matrix and currents of a builder that was constructed with the present options and parameters; nothing of the options of an earlier solve survives.",
  ["histories", "configurations"],
  "every history up to the stated depth over the options that change the numbers of an approach",
  "the tests construct a builder for each itype; no test changes one of these options after construction.",
  ["qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py", "qmeq/approach/aprclass.py", "qmeq/approach/c_aprclass.pyx", "qmeq/approach/base", "qmeq/approach/elph"],
  [("option attributes", "qmeq/builder/builder_base.py: attribute_map"),
   ("options of the compiled approaches", "qmeq/approach/c_aprclass.pyx: Approach.itype"),
   ("buffers that depend on options", "qmeq/approach/base/RTD.py: prepare_kern/prepare_arrays, qmeq/approach/base/neumann2.py: get_grid_ext"),
   ("bath spectral functions", "qmeq/specfunc/specfunc_elph.py, qmeq/specfunc/c_specfunc_elph.pyx")],
  [("cached copies of options", "compiled approaches and integral objects hold their own copy", "qmeq/approach/c_aprclass.pyx, qmeq/specfunc")],
  ["builder.itype", "builder.itype_ph", "builder.off_diag_corrections", "builder.kpnt", "builder.current", "builder.phi0"])

p("C27", "Unconnected parts change nothing; the particle-hole mirror reverses the current",
  "For every model and approach: adding, at any place of the numbering, a lead without amplitudes, a bath without couplings (or declaring no baths at all), or a level that the removal of Fock states keeps always empty or always filled leaves the currents, energies and populations of the rest unchanged (a filled level shifts the other levels by its interaction), and the unconnected lead carries no current; the dot that consists of two independent parts, with the levels and leads of the two parts interleaved in any way, gives each part its own currents, the sums of the energies and the product of the populations (Pauli, Lindblad and Redfield, and 1vN without coherences); the particle-hole mirror of a model (d to d^+, energies and chemical potentials reversed, bands reflected) reverses the charge currents and keeps the energy and heat currents; and for real models the number types chosen for the matrices do not change the currents, also after edits.",
  ["configurations", "inputs"],
  "every placement of idle leads, idle baths, frozen levels and independent parts in the model alphabet, times approaches",
  "the tests fix one model with all levels connected to all leads, in which no such relation is visible.",
  ["qmeq/leadstun.py", "qmeq/baths.py", "qmeq/qdot.py", "qmeq/indexing.py", "qmeq/approach/base", "qmeq/approach/elph", "qmeq/specfunc"],
  [("fermion signs of amplitudes and couplings", "qmeq/leadstun.py: construct_Tba, qmeq/baths.py: construct_Vbbp, qmeq/qdot.py: construct_ham_hopping/construct_ham_coulomb"),
   ("sums over leads and baths", "qmeq/approach/base/*, qmeq/approach/elph/*"),
   ("removal of Fock states", "qmeq/indexing.py, qmeq/builder/builder_base.py: remove_fock_states"),
   ("electron and hole integrals", "qmeq/specfunc/c_specfunc.pyx"),
   ("number types", "qmeq/qdot.py, qmeq/leadstun.py: mtype")],
  [("numbering of levels, leads and baths", "decides the fermion signs and which contribution belongs to which lead", "qmeq/leadstun.py, qmeq/qdot.py")],
  ["builder.current", "builder.energy_current", "builder.heat_current", "builder.phi0", "builder.Ea"])

p("C28", "Without its compiled modules the package still gives the same answers",
  "Whenever some or all of the compiled extension modules cannot be imported, importing qmeq still succeeds, every kind of builder accepts the same approach names and options, and solves, edits, option choices and switches of the approach give the same energies, density matrices and currents as with the complete package (up to the accuracy of the integrals); and when other implementations are used because of it, this is announced by a warning.",
  ["fault_sequences", "configurations", "histories"],
  "every set of at most two missing compiled modules, every package of them and all of them, times a list of histories that uses every approach and kind of builder",
  "the tests run only where every extension module has been built, and compare the Python approaches under their own names.",
  ["qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py", "qmeq/specfunc/__init__.py", "qmeq/approach/__init__.py", "qmeq/approach/base", "qmeq/approach/elph"],
  [("fall-back definitions", "qmeq/builder/builder_base.py, qmeq/builder/builder_elph.py, qmeq/specfunc/__init__.py: except ImportError"),
   ("choice of the class by name", "qmeq/builder/builder_base.py: get_approach_class")],
  [("names of the approach classes", "bound to compiled or Python classes when the module is imported", "qmeq/builder/builder_base.py, qmeq/builder/builder_elph.py")],
  ["builder.current", "builder.energy_current", "builder.heat_current", "builder.phi0", "builder.Ea", "standard output at import"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
