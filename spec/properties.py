PROPS = []
PROPS.append(dict(
    id="C05",
    title="Products of fields enter the linear system exactly as their linearisation",
    statement="For all field values and coefficients: a product of two distinct fields enters as its two partial derivatives about the previous solution plus the source that removes the double count, so that at the fixed point it contributes exactly once, likewise when divided by a norm; a field times itself contributes once. Conditional couplings and sources are multiplied by every conditioning field, repeated ones repeatedly, constants enter unchanged, missing fields count as zero, and every solution component read is declared as required. All contributions to one pair of components or one source add up under that pair, bonds couple with one, and every component involved belongs to the field space.",
    over=["inputs", "histories"],
    quant="all products, conditional couplings and sources, all previous solutions and coefficients, any set of insertions on the same components",
    why="Tests observe converged totals of a few systems; a wrong partial derivative, a source with the wrong sign or an overwritten instead of added contribution converges to a plausible but wrong answer.",
    files=["phasor/system/matrix_injections.py", "phasor/system/matrix_algorithm.py", "phasor/system/solver_algorithm.py"],
    mech=[("products and conditional couplings", "phasor/system/matrix_injections.py"), ("insertion", "MatrixBuildAlgorithm.injection_insert"), ("assembly", "SystemSolver._edge_matrix_generate, _source_vector_generate")],
    technique="interprocedural value-flow analysis over named abstract components; identity of algebraic normal forms with the linearised product, dependency inclusion",
    note="Coupling and source functions equal the linearised product identically; lists of up to three conditions and three insertions per pair; the nonlinear crystal's own integrator is outside.",
))

PROPS.append(dict(
    id="C15",
    title="Numbers kept as a real and an imaginary part calculate like complex numbers",
    statement="A number kept as separate real and imaginary parts gives, in sums, differences, products and quotients with another such number, a real number, a complex number or a plain quantity without parts, on either side of the operator, the parts of the complex result. Real powers (whole of either sign, zero, halves, any other) are the principal powers, the modulus, its square, the conjugate, the opposite, the exponential and the phase (in radians or degrees, in all quadrants and on the axes) are those of the complex number; two numbers are equal exactly when both parts are, unequal exactly otherwise, equal ones hash alike, and the number counts as zero exactly when both parts do.",
    over=["inputs"],
    quant="all values of the parts (all quadrants, the axes), all kinds of partner, both sides of every operator",
    why="Used for fits and uncertainties instead of built-in numbers, where a sign that is wrong only from the right, in one quadrant or for one kind of partner passes unnoticed; the tests hardly touch it.",
    files=["phasor/math/complex.py", "phasor/math/dispatched.py"],
    mech=[("numbers with two parts", "Complex"), ("functions of them", "exp, angle, zero_check_heuristic")],
    technique="abstract interpretation of the number class with symbolic parts and partners; results compared with complex arithmetic per region of signs",
    note="Eight regions of the signs of the parts, six kinds of partner, exponents up to eight and in between. Rounding, complex exponents, and functions the class does not provide (sqrt, log) are outside.",
))

PROPS.append(dict(
    id="C14",
    title="A parameter given with a unit means the same physical value everywhere",
    statement="A parameter that carries a unit may be given as a plain number under any of its offered spellings, as a number with a unit, as an existing quantity with value and reference, or as another element's parameter; read back in any of the offered spellings or in its principal unit, as value or as reference, it is the same physical value. Settings given beforehand win over arguments, arguments over defaults; a replica built from the element, or a value or reference put by a fit through any spelling, has the same meaning. Giving several spellings at once is refused. Sums, differences, products and quotients of such quantities rescale to a common unit for value and reference alike.",
    over=["inputs", "configurations"],
    quant="every parameter declared with units, every offered spelling and way of giving a value, all values and references",
    why="Tests use a few spellings of a few parameters; a wrong prefix, or a path that drops the unit or the reference, misconfigures elements silently by powers of ten.",
    files=["phasor/base/multi_unit_args.py", "phasor/base/simple_units.py", "phasor/base/units.py", "phasor/optics/standard_attrs.py"],
    mech=[("declarations of parameters with units", "generate_refval_attribute, unitless_refval_attribute, arbunit_refval_attribute"), ("quantities", "SimpleUnitfulGroup, ElementRefValue"), ("named parameters", "standard_attrs of optics, electronics, mechanics, signals, matrix")],
    technique="abstract interpretation of every declaration with a model of the unit registry and settings tree; dimensional comparison of all readings",
    note="All parameters declared through the generators and all their spellings. Value in the settings tree mixed with an argument's reference, and frequencies without any value, are outside.",
))

PROPS.append(dict(
    id="C16",
    title="Light interacting in crystals and deflectors neither gains nor loses energy",
    statement="Along a nonlinear crystal or an acousto-optic deflector, whatever carriers, harmonics, sidebands, polarizations and drive tones are present: every permitted product of two components present is generated, only at the sum or difference of their frequencies, within one polarization and one direction of travel, with the documented gain; the rates conserve energy exactly and treat both conjugate parts alike; a deflected beam is shifted one way only; a component with nothing to interact with passes unchanged. The integration enters the linear system as the exact derivative of its steps about the previous solution plus the source making the output exact, asking for all values it uses.",
    over=["inputs", "configurations", "histories"],
    quant="all sets of components and drives, both directions, any number of steps, all previous solutions and changes of them",
    why="Tests compare a few efficiencies to one or two digits; a missing partner, a doubled gain or a wrong derivative makes gain, squeezing and noise wrong while the converged powers look plausible.",
    files=["phasor/optics/nonlinear_crystal.py", "phasor/optics/AOM.py", "phasor/optics/ODE_solver.py"],
    mech=[("rates of a crystal", "NonlinearCrystal.system_setup_ports, system_setup_coupling"), ("rates of a deflector", "AOM.system_setup_ports, system_setup_coupling"), ("integrator", "ExpMatCoupling")],
    technique="abstract interpretation of requests and couplings over symbolic fields; rates read as polynomials against conservation laws; polynomial domain for the integrator",
    note="Sets of up to five optical components and two drive tones, up to three steps, orders up to four in the gain, three waves per product; how fast the steps converge and multiply composite wavelengths are outside.",
))

NA = []
NOTES = ""

PROPS.append(dict(
    id="C01",
    title="Every coupling an element inserts was requested from both of its sides",
    statement="Whenever an element couples a signal component at one port to a component at another, possibly through a modulating or back-acting field, the presence of either end during port resolution makes that element request the other end (and the other factor of a product). So no signal path, modulation sideband, back-action or loss/noise path is rejected or silently dropped, whichever end the need arises from and whatever parameters, frequencies and orders the system uses. A coupling is left out for an order limit only when one of the frequencies it joins is beyond its own limit. Products of components are requested only within these limits, so requests come to an end.",
    over=["inputs", "configurations"],
    quant="all element classes, all ports, all key cases (quadrature operator, polarisation, symbolic frequencies), all element parameter values and all orders in which port keys arrive",
    why="The tests drive a handful of topologies in which needs arrive from one side; a missing request in the other direction, for one polarisation, or behind a parameter guard leaves those results unchanged.",
    files=["phasor/system/ports_algorithm.py", "phasor/optics/nonlinear_utilities.py", "phasor/optics/mirror.py", "phasor/electronics/passive.py", "phasor/mechanical/elements.py", "phasor/signals/amplifiers.py"],
    mech=[("request fixpoint", "phasor/system/ports_algorithm.py PortUpdatesAlgorithm"), ("element requests", "system_setup_ports of every element"), ("element couplings", "system_setup_coupling of every element")],
    technique="effect analysis with gated value numbering and key normal forms",
    note="For every class and every coupling effect found by abstract evaluation of its setup code, a matching request effect with implied guards must exist for each end.",
))

PROPS.append(dict(
    id="C02",
    title="Real signals stay real: conjugate components couple by conjugate coefficients",
    statement="Every coupling and source an element inserts between some field components (annihilation or creation part of light, +f or -f part of a classical signal) comes with its complex conjugate between the conjugate components, for all element parameters and frequencies. So intensities, voltages, displacements and noise spectra computed from a system are those of real physical signals, and complex gains given with a separate conjugate default to true conjugate pairs. Frequency cutoffs treat +f and -f alike.",
    over=["inputs", "configurations"],
    quant="all element classes, all pairs of port keys and quadrature cases, all parameter values, all frequencies",
    why="Tests compare magnitudes or one quadrature of a few systems; a wrong sign of the imaginary unit, a missing conjugate or a coupling inserted for one of +f/-f only shows in particular combinations of detuning, modulation and readout quadrature.",
    files=["phasor/optics/mirror.py", "phasor/optics/modulators.py", "phasor/optics/squeezer.py", "phasor/signals/mixer.py", "phasor/signals/ZPSOS.py", "phasor/system/system.py"],
    mech=[("element couplings", "system_setup_coupling of every element"), ("conjugate couplings", "phasor/optics/parameters.py"), ("frequency extraction", "phasor/system/system.py BGSystem")],
    technique="effect analysis with algebraic normal forms; conjugate symmetry obligation per coupling",
    note="Total coefficient between each set of keys and between the conjugate keys compared as algebraic normal forms, split on all open conditions.",
))

PROPS.append(dict(
    id="C06",
    title="Electrical elements obey their circuit laws for every incoming wave",
    statement="For any incoming waves, frequency and parameter values, every electrical element satisfies its circuit law in terms of the voltages (sum of the two waves) and currents (their difference over the reference impedance) at its terminals: Ohm's law for resistors, capacitors, inductors and general impedances or admittances, terminating or in series; equal voltages and currents summing to zero at a junction of any number of pins; exact delay in a cable. Voltage and current sources impose their value, at DC and for signals; op-amps draw no input current and output gain times the input difference; a voltage amplifier shows its input admittance and output impedance. Meters read the voltage or current at their terminals, and fluctuation sources enter as a series voltage or a shunt current.",
    over=["inputs", "configurations"],
    quant="all electrical element classes, all terminals and incoming waves, all frequencies and parameter values, any number of pins at a junction",
    why="Tests compute a few dividers with particular values at one frequency; a law violated only with unmatched impedances, from one side, at DC or in a rarely used element is not exercised.",
    files=["phasor/electronics/passive.py", "phasor/electronics/smatrix.py", "phasor/electronics/sources.py", "phasor/electronics/opamps.py", "phasor/electronics/elements.py", "phasor/electronics/multimeter.py", "phasor/electronics/noise.py"],
    mech=[("element couplings", "system_setup_coupling of every electrical element"), ("impedance methods", "impedance_by_freq / admittance_by_freq / gain_by_freq")],
    technique="effect analysis with algebraic normal forms; circuit-law identity per terminal and incoming wave",
    note="The scattering coefficients read off the setup code are shown to satisfy the circuit law identically; the two-winding transformer network is a known finding.",
))

PROPS.append(dict(
    id="C07",
    title="Mechanical elements obey force and displacement laws for every incoming wave",
    statement="For any incoming waves, frequency and parameter values, every mechanical element satisfies its law between the displacements (sum of the two waves) and the forces (their difference over the reference mobility) at its terminals: F = k(1 + i loss angle) d for springs, viscous force i 2 pi f R d for dampers, inertia for masses, to ground or in series; equal displacements and balanced forces at a junction of any number of terminals; delay and loss along a cable; matched conversion and sqrt(T/rho) sound speed for a string; exact lever arms in one and three dimensions, axis by axis for three-axis elements. Displacement and force sources impose their value, at DC and for signals, and readouts and fluctuations act as differences, forces or displacements at their terminal.",
    over=["inputs", "configurations"],
    quant="all mechanical element classes, all terminals, axes and incoming waves, all frequencies and parameter values, any number of terminals at a junction",
    why="Tests compare a few spring and source combinations at one frequency; a wrong axis, a law broken from one side, a lever with the wrong sign of torque or a lossy element is not exercised.",
    files=["phasor/mechanical/passive.py", "phasor/mechanical/smatrix.py", "phasor/mechanical/sources.py", "phasor/mechanical/elements.py", "phasor/mechanical/string.py", "phasor/mechanical/xyz.py", "phasor/mechanical/multimeter.py", "phasor/mechanical/noise.py"],
    mech=[("element couplings", "system_setup_coupling of every mechanical element"), ("mobility methods", "mobility_by_freq"), ("composites", "properties building sub elements in string.py and xyz.py")],
    technique="effect analysis with algebraic normal forms; mechanical-law identity per terminal and incoming wave, composite construction analysis",
    note="The general driver converting one axis to three (which fails whenever it is set up) is not covered; the drive of a driven port is a known finding.",
))

PROPS.append(dict(
    id="C04",
    title="Optical elements act on every light field as their textbook laws say",
    statement="For each sideband, both polarisations and all parameter values: a mirror reflects, transmits, loses and scatters power shares that sum to one with opposite reflection signs on its faces and turns motion into the phase modulation of the reflected light; a space delays each field by its own frequency; modulators impose their first order sidebands; polarisation optics, wave plates, squeezer, circulator and selectors act as their unitary (or Bogoliubov) textbook matrix; a detector reports the beat of each pair of fields with its own factor. No element couples light between other ports, frequencies or polarisations.",
    over=["inputs", "configurations"],
    quant="all optical elements, incoming fields (carrier, sideband, creation or annihilation part, polarisation), frequencies and parameter values",
    why="Tests compare a few interferometers with reference numbers; a wrong phase on one face, a polarisation leak, a loss path with the wrong share or a beat counted once too often only shows in configurations they do not build.",
    files=["phasor/optics/mirror.py", "phasor/optics/space.py", "phasor/optics/modulators.py", "phasor/optics/polarization.py", "phasor/optics/photodiode.py", "phasor/optics/EZSqz.py", "phasor/optics/circulator.py", "phasor/optics/selectors.py", "phasor/optics/laser.py", "phasor/optics/hidden_variable_homodyne.py"],
    mech=[("element couplings", "system_setup_coupling of every optical element"), ("element matrices", "phasor/optics/polarization.py mounts and plates")],
    technique="effect analysis with algebraic normal forms; optical-law identity per pair of field components, table of permitted couplings",
    note="Coefficients read off the setup code satisfy each law identically; mirror radiation pressure is a known finding; unitarity is checked where the mirror's own phase is zero.",
))

PROPS.append(dict(
    id="C03",
    title="Signal elements combine their inputs by the documented linear maps and products",
    statement="For every component frequency and all parameter values: amplifiers and multi-port filters apply to each input-output pair exactly its own gain or response at the signal's frequency; single-port filters apply their response inside their cutoffs and pass nothing outside them (solved at several frequencies at once: when none lies inside) or at blocked DC, rational filters being gain and delay times the zero factors (1 - iF/z) over the pole factors with complex roots in conjugate pairs; state space models satisfy i 2 pi f X = A X + B U, Y = C X + D U. Mixers and modulators form the products of each pair of oscillating components at the sum frequency with weight 1/2 (1/4 into DC), in phase or turned by 90 degrees with the sign of the frequency; mean squares add up each component's power once; generators drive +f and -f with amplitude and conjugate, harmonics with their own gain and multiplied phase. No element couples anything else.",
    over=["inputs", "configurations"],
    quant="all signal elements, any number of ports, states and roots (up to three of each kind for rational filters), all frequencies and parameter values",
    why="Tests run a few filters and mixers with one tone; a transposed matrix index, a product counted twice, a gain applied to the wrong port or a wrong sign at negative frequencies needs particular matrices or tones to show.",
    files=["phasor/signals/amplifiers.py", "phasor/signals/mimo_filter.py", "phasor/signals/siso_filter.py", "phasor/signals/ZPSOS.py", "phasor/signals/state_space.py", "phasor/signals/mixer.py", "phasor/signals/RMS.py", "phasor/signals/signal_generator.py"],
    mech=[("element couplings", "system_setup_coupling of every signal element"), ("filter responses", "filter_func methods")],
    technique="effect analysis with algebraic normal forms; transfer identity per port pair and frequency component, table of permitted couplings",
    note="Coefficients read off the setup code equal the documented combination identically; products with DC inputs and the sign convention of the integrator are outside.",
))

PROPS.append(dict(
    id="C10",
    title="Every linear solver returns the exact solution of the coupled system",
    statement="For any coupling structure (loops, self couplings, nodes nothing reaches or nothing reads) and any entries, every solver (loop reduction with pivoting and reflections, fast loop reduction, sparse) returns for each driven output the entry of the solution of (1 - M) x = s, or of M x = s for a plain matrix, and for each requested input and output the corresponding entry of the inverse, with the documented sign and with every nonzero pair listed in both adjacency results. Each elimination, row or column swap and reflection leaves the transfer from every source to every output unchanged, keeps both adjacency lists and the entries consistent, and divides only by entries chosen large enough. The result does not depend on the order in which nodes are eliminated.",
    over=["inputs", "configurations", "schedules"],
    quant="all coupling graphs (each step on representative neighbourhoods, whole solves of a looped system), all entries, all elimination orders, large or small pivots",
    why="Which routine runs, with which pivot and in which order, depends on the sizes of the entries and on hash order; test systems are well conditioned and never reach most swap and reflection branches.",
    files=["phasor/matrix/DAG_algorithm.py", "phasor/matrix/DAG_algorithm_impl.py", "phasor/matrix/graph_algorithm.py", "phasor/matrix/scisparse_algorithm.py", "phasor/matrix/matrix_generic.py"],
    mech=[("elimination steps", "reduceLU, reduceLUQ_row, reduceLUQ_col, pivotROW_OP, pivotCOL_OP, householderREFL_ROW_OP, householderREFL_COL_OP"), ("drivers", "inverse_solve_inplace and mgraph_simplify_* of each solver"), ("purging", "matrix_generic.py")],
    technique="abstract interpretation of the graph routines over symbolic entries; invariance of the source-to-output transfer as a term identity",
    note="Entries are abstract; term identities are decided at generic points. Graph shapes, elimination orders and size patterns are enumerated up to small bounds. The symbolic overlay and the accuracy of floating point are outside.",
))

PROPS.append(dict(
    id="C08",
    title="Readouts and noise spectra combine the solved transfers as documented",
    statement="A noise spectral density of two ports is the sum, over every pair of correlated components that any source declares, of the source's two-sided density times the transfer of the first component to the +F response of one port and of the second to the -F response of the other, doubled for one-sided spectra and real for a single port; the spectra by source add up to it, and homodyne spectra and responses rotate with the homodyne angle. Every noise source declares each component once with its opposite frequency (light: the conjugate part) and the density it is given, halved when given one-sided, with amplitudes of a series voltage, a shunt current, a displacement, a force or half a photon of vacuum, and dissipative elements declare 4kT times their dissipation. A transfer readout is the +F response to a drive at +F and -F, open loop results are ratios of these, and a DC readout the real steady state; readouts request everything they look up and count absent transfers as zero.",
    over=["inputs", "configurations"],
    quant="all readouts and noise sources, transfers, densities, frequencies and declared normalisations",
    why="Tests compare total noise of a few setups with loose tolerances; a source counted twice, a missed correlation between ports, a factor for one declared normalisation, or a readout that works only when another readout requests its transfers is not seen.",
    files=["phasor/readouts/AC.py", "phasor/readouts/DC.py", "phasor/readouts/noise.py", "phasor/readouts/homodyne_AC.py", "phasor/readouts/testpoint.py", "phasor/signals/noise.py", "phasor/electronics/noise.py", "phasor/mechanical/noise.py", "phasor/optics/vacuum.py", "phasor/electronics/passive.py", "phasor/mechanical/passive.py", "phasor/system/matrix_algorithm.py"],
    mech=[("spectrum assembly", "NoiseReadout.CSD_builds"), ("sources", "system_setup_noise and noise_2pt_expectation"), ("readouts", "AC_sensitivity, OLG, GPlant, DC_readout, AC_CSD_IQ"), ("noise map", "MatrixBuildAlgorithm.noise_pair_insert")],
    technique="abstract interpretation of whole readouts and sources over symbolic transfers; covariance and closed-form identity of results",
    note="Results are closed forms over abstract transfers, compared at random points of the function space; homodyne ellipses and optimal angles are not covered.",
))

PROPS.append(dict(
    id="C11",
    title="Solutions are those of all contributions, linearised at the previous order",
    statement="The system solved at order N contains every contribution any element inserts: contributions to the same coupling or source add up, bonds pass every component unchanged through the adaptors of both sides, block couplings count too, and couplings proportional to fields take them from the solution of order N-1 (starting from zero), including fields that only become nonzero at a later order. The solution published for any named set of outputs, at any requested order and in any sequence of requests, is the exact solution of that system; responses are those of the system linearised at the last orders computed. Iterating stops only when the largest relative change of any field falls below tolerance, at the maximum order, or at the exact order given.",
    over=["inputs", "configurations", "histories"],
    quant="all contributions (constant, proportional to fields, shared, cancelling, normalised products, blocks, bonds through adaptors), orders and sequences of requests",
    why="Tests solve a few systems once; a contribution overwritten by another to the same coupling, a coupling whose field appears only at second order, a cached solution of another set or order, or convergence judged on part of the fields needs a particular combination to show.",
    files=["phasor/system/matrix_algorithm.py", "phasor/system/solver_algorithm.py", "phasor/system/matrix_injections.py", "phasor/matrix/matrix_generic.py"],
    mech=[("collection of contributions", "MatrixBuildAlgorithm.injection_insert"), ("reachability", "MatrixBuildAlgorithm._coherent_sparsity_graph"), ("assembly", "SystemSolver._edge_matrix_generate, _source_vector_generate"), ("iteration and published solutions", "SystemSolver._perturbation_iterate, driven_solution_get, coupling_solution_get, solve"), ("convergence", "SystemSolver.delta_v_compute")],
    technique="abstract interpretation of builder and solver over symbolic contributions with an abstract linear solver; identity with the perturbation recursion",
    note="Published values are compared with the recursion as functions of the contributions at generic points; node names, graph shapes and orders are enumerated up to small bounds. Symbolic (computer algebra) entries are outside.",
))

PROPS.append(dict(
    id="C12",
    title="Bonds join exactly what was bonded; requested components reach everyone",
    statement="Bonding two ports makes each one's outgoing wave the other's incoming wave, in both directions, and nothing else: a port bonded to several others gets one ideal node with a terminal for every party, a port never bonded gets one terminator, ports bonded through stand-in ports, by axis or in sequence (continuing at the far port of each element passed) are joined as if bonded directly, and every wave is owned by its element under a unique name. A component (frequency, side band, ...) requested at a port exists at every port bonded to it, is reported to every element owning or observing such a port however late it appears, and the components declared are exactly the closure of the initial requests under bonds and the elements' own rules, whatever the order of processing. Modulation orders beyond a frequency's limit are rejected and those within it are not; the frequency of a component is the sum of its multiples.",
    over=["configurations", "schedules", "inputs"],
    quant="bond patterns over every kind of port, elements reacting to components in any order, frequency combinations and limits",
    why="Tests build a few fixed systems; a component not reported to one of two observers, a third party to a bond left out, or a limit off by one only shows in the configuration that needs it, and then as a silently missing term.",
    files=["phasor/system/ports_algorithm.py", "phasor/system/system.py", "phasor/base/ports.py", "phasor/base/bases.py", "phasor/electronics/ports.py", "phasor/mechanical/ports.py", "phasor/optics/ports.py", "phasor/signals/ports.py"],
    mech=[("propagation of requests", "PortUpdatesAlgorithm"), ("bonding and completion", "BGSystem._setup_sequence, bond_old, bond_sequence"), ("multiple bonds, terminators", "ElectricalPort, MechanicalPort, OpticalPort .bond_completion, .auto_terminate"), ("three axes", "MechanicalXYZPort.bond_delegate"), ("limits", "BGSystem.reject_classical_frequency_order, reject_optical_frequency_order")],
    technique="abstract interpretation of bonding and request propagation over abstract elements; comparison with the least closure and the bond graph",
    note="Bond patterns of up to seven ports and ten request systems in six processing orders, all analysed from source. Elements are abstract; what concrete elements request is C01. An element observing its own shared port and requesting there is not told about its own request (outside).",
))

PROPS.append(dict(
    id="C13",
    title="Component labels and frequency combinations compare and combine by meaning",
    statement="Two component labels are equal exactly when they have the same entries, and two frequency combinations exactly when every frequency has the same multiple in both (an absent one counting as zero), however, in whatever order and by whatever operations they were made; equal ones hash alike, also as entries of labels. Sums, differences, opposites and integer multiples of frequency combinations add, subtract, negate and multiply each multiple, a combination is DC exactly when no multiple is left, and its value is the sum of multiples times frequencies. Union and replacement of label entries let the later ones prevail, intersection keeps the entries equal in both, inclusion, removal and access mean what they say, and no operation changes its operands.",
    over=["inputs", "histories"],
    quant="all labels and frequency combinations, all sequences of operations that produce them",
    why="Every port, coupling and solution is filed under these keys; a combination that does not equal itself when reached another way silently drops couplings, and only in systems where two ways lead to it.",
    files=["phasor/base/dictionary_keys.py"],
    mech=[("labels", "DictKey"), ("frequency combinations", "FrequencyKey")],
    technique="abstract interpretation of the key classes over finite maps; comparison with the algebra of maps and integer combinations",
    note="Every content of up to three entries and every pair of contents; ordering of labels (used only to fix an arbitrary order) is outside.",
))

PROPS.append(dict(
    id="C09",
    title="Beam layouts transfer beams by the product of the elements met",
    statement="In a beam layout the transfer matrix between two planes (faces of elements, named targets, ends) is the product of the elementary matrices met from one to the other, and the inverse backwards: a thin lens, a mirror, a spherical interface, a general element, and free space of length over index between elements. This holds for planes asked by name, element or position (on a thin element either side may be meant), whatever the nesting, order of definition, empty ends or truncation; a reversed part is met mirrored, each element turned around; lenses of glass are their interfaces and interior. Planes lie at the distances so passed. Beams obey q' = (Aq+B)/(Cq+D), the wavelength scales with the determinant and the Gouy phase grows by that of the conjugate of A+B/q; a beam given at a target seen reversed is -q*, one taken from a cavity its decaying eigenmode. Beam parameters made from waist, Rayleigh range, divergence, or size and curvature read back all of these, and overlaps are those of Gaussian modes.",
    over=["inputs", "configurations"],
    quant="all layouts (nested, reversed, truncated, defined in any order), all pairs of planes and positions, all lengths, focal lengths, curvatures, indices and beams",
    why="Tests follow one or two layouts forwards; a slice off by one between particular planes, a missing gap at the edge of a reversed part, or a Gouy phase of the wrong sign needs a particular pair of planes in a particular nesting.",
    files=["phasor/alm/system.py", "phasor/alm/bases.py", "phasor/alm/space.py", "phasor/alm/composites.py", "phasor/alm/target.py", "phasor/alm/projected_target.py", "phasor/alm/beam_param.py", "phasor/alm/measurements.py", "phasor/alm/utils.py"],
    mech=[("transfer between planes", "System.matrix_between, matrix_target_to_z_single, component_pos_pairings"), ("elements", "ThinBase, LensInterface, Space, PLCX, CXCX"), ("beam parameters", "ComplexBeamParam"), ("questions about a layout", "Measurements.overlap, target_q, q_target_z, relative_gouy_phasor, beam_targets")],
    technique="abstract interpretation of layouts of symbolic elements; transfer matrices and beams as identities with the product of the elements met",
    note="Layout shapes are a fixed family (flat, nested twice, reversed, truncated, extended, glass, coincident planes, projected targets), both ways round; lengths and powers are symbols in one order region per layout. Array-valued positions, mounts, positions outside the layout, fits and plots are outside.",
))

PROPS.append(dict(
    id="C17",
    title="A rebuilt system is the same system",
    statement="Rebuilding a system from an existing one, any number of times and whether or not the systems in between were solved or used, gives a system with the same elements, each exactly once, with the same names, places and arguments, and with the same bonds, as if it had been written down afresh. Arguments naming elements of the earlier system mean their counterparts in the new one. What elements build for themselves (inner elements, terminators, junctions and bonds among these) is built by the new ones, not carried over a second time. A set of settings given on rebuilding replaces the one given before and holds in later rebuilds until another is given; arguments of the system likewise, one by one; everything else is as written down. Earlier systems are not affected by later ones, and can still be used and extended. What a system or beam layout computed from its elements is computed anew once elements are added.",
    over=["histories", "configurations"],
    quant="all systems (nesting, bonds, junctions, references, settings), all sequences of building, solving, extending and rebuilding",
    why="The tests rebuild one or two systems once; what is lost or doubled appears only in the second or third generation, only for particular port kinds or bonds, or only when the system in between was (or was not) solved.",
    files=["phasor/base/autograft.py", "phasor/base/bases.py", "phasor/system/system.py", "phasor/optics/ports.py", "phasor/electronics/ports.py", "phasor/mechanical/ports.py", "phasor/signals/ports.py", "phasor/alm/system.py"],
    mech=[("carrying over", "Element._complete, Element._registry_inserted_pre, RootElement.regenerate"), ("bonds", "ElectricalPort, MechanicalPort, MechanicalXYZPort, OpticalPort, SignalInPort, SignalOutPort ._complete"), ("settings", "RootElement.ctree, RootElement.regenerate"), ("forgetting", "Element.invalidate, invalidate_auto")],
    technique="abstract interpretation of building, solving and rebuilding scripts against the same script run afresh; dependency analysis of memoised members",
    note="Eight scripts for five kinds of ports with four patterns of use over up to four generations; elements of the scripts are abstract, the base classes, ports and system class are the real source. Elements inside containers given as arguments, and overriding an element under a name another one builds, are outside.",
))

NA.append(dict(
    id="C18",
    title="Solved fields are accurate to rounding for well-conditioned systems",
    statement="For systems that are not close to singular, the transfers and field values a solved system reports agree with the exact solution of its linear equations up to a small multiple of the rounding error, whatever elimination order and solver path are used.",
    over=["inputs", "configurations"],
    quant="all well-conditioned systems, all frequencies, all elimination orders",
    why="The error depends on pivots met at particular frequencies and topologies which a sampled system does not meet.",
    files=["phasor/matrix/DAG_algorithm.py", "phasor/matrix/scisparse_algorithm.py", "phasor/system/matrix_injections.py"],
    mech=[("elimination", "phasor/matrix/DAG_algorithm.py"), ("sparse solve", "phasor/matrix/scisparse_algorithm.py")],
    reason="The growth of rounding errors depends on the run-time magnitude of the pivots, which no static argument in reach bounds (elimination is without global pivoting). That the elimination is exact in exact arithmetic is decided under C10.",
))
NA.append(dict(
    id="C19",
    title="The perturbation orders converge to the nonlinear steady state",
    statement="For weakly nonlinear systems (modulation, light-matter interaction, harmonic generation of small depth) raising the solution order makes the solved fields converge to the steady state of the nonlinear equations, and the iteration stops only when the residual is small compared with the requested tolerance.",
    over=["inputs", "configurations"],
    quant="all weakly nonlinear systems, all depths of modulation, all orders",
    why="Convergence depends on depth and topology; tests look at one order of one system.",
    files=["phasor/system/solver_algorithm.py", "phasor/system/matrix_injections.py", "phasor/optics/nonlinear_crystal.py"],
    mech=[("perturbation iteration", "phasor/system/solver_algorithm.py"), ("propagation through a crystal", "phasor/optics/nonlinear_crystal.py")],
    reason="Convergence of the iteration is a contraction property of run-time coupling strengths; there is no static bound on them. That each step solves the linearisation of the right equations is decided under C05, C11 and C16.",
))
NA.append(dict(
    id="C20",
    title="Fits reach the optimum of the cost they are given",
    statement="A fit of parameters of a system or of a beam layout ends at parameters within their bounds where the requested cost has a local optimum, and the system rebuilt with the fitted parameters has the fitted response.",
    over=["inputs"],
    quant="all costs, all parameterisations, all starting points",
    why="Optimality depends on the whole cost surface; tests start next to the optimum of one cost.",
    files=["phasor/fitting/casadi/fitter.py", "phasor/fitting/casadi/transfer_functions.py", "phasor/fitting/casadi/expressions.py"],
    mech=[("optimiser", "phasor/fitting/casadi")],
    reason="Whether a numerical optimiser (IPOPT, through casadi, which is not installed here) reaches an optimum is a statement about run-time iterates of an external library; nothing in this source decides it.",
))
