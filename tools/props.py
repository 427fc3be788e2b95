# -*- coding: utf-8 -*-
PROPS = []


def P(**kw):
    PROPS.append(kw)


P(
    id='M01',
    title='Coupled networks are solved exactly, and every solver gives the same answer',
    statement="For every well-posed network of scalar couplings between nodes, each of the interchangeable graph solvers returns, for "
              "every requested input/output pair and for every source vector, the response of the dense matrix inverse (identity minus couplings, or "
              "the plain inverse when asked), including zero responses between unconnected nodes. Neither the labels of the nodes (hence the "
              "elimination order), nor which subset of inputs and outputs is requested changes a response, nothing that was not requested is returned, "
              "and the returned sequence maps agree with the returned couplings.",
    over=['inputs', 'configurations'],
    q="all networks of 2 and 3 nodes (4 in the thorough tier) over palettes of generic, unit, zero, tiny and huge couplings, all subsets of "
      "inputs/outputs/sources, all labellings of cavity chains, three solvers",
    why="The tests solve a handful of fixed or random matrices; the elimination is driven by graph structure and pivot sizes, so whole classes of "
        "graphs (pivoting, reflections, unconnected nodes, self loops) are never reached.",
    files=['phasor/matrix/DAG_algorithm.py', 'phasor/matrix/DAG_algorithm_impl.py', 'phasor/matrix/scisparse_algorithm.py', 'phasor/matrix/solvers_registry.py', 'phasor/matrix/scisparse_algorithm.py'],
    mech=[('plain loop elimination', 'phasor/matrix/DAG_algorithm.py'), ('pivoting/reflection elimination', 'phasor/matrix/DAG_algorithm_impl.py'),
          ('sparse numeric solver', 'phasor/matrix/scisparse_algorithm.py')],
    observe=['inverse_solve_inplace'],
    tech='exhaustive enumeration of small coupling graphs on the real solvers against a dense reference',
    note="Complete over the stated bounds: every graph of the stated size over a finite palette of coupling values, run on the real solvers and "
         "compared with numpy's dense inverse. Trusts numpy.linalg; larger networks and other values are not covered.",
)
P(
    id='M02',
    title='Array-valued couplings are solved as every index separately',
    statement="Solving a network whose couplings are arrays (broadcast against each other, with entries that are zero or singular loops at some of the "
              "indices) gives at every index the same responses as solving the scalar network of that index alone. The arrays handed in "
              "by the caller are left unmodified.",
    over=['inputs', 'configurations'],
    q="all 2-node networks over 9 coupling shapes and all 3-node networks over palettes of arrays with zeros/units at differing indices, 4-node networks with two couplings into each node, near resonant loops at one index",
    why="Tests use one array shape with generic values, so a pivot which is fine at one index and vanishes at another is not reached.",
    files=['phasor/matrix/DAG_algorithm.py', 'phasor/matrix/DAG_algorithm_impl.py', 'phasor/matrix/scisparse_algorithm.py'],
    mech=[('array pivots and reflections', 'phasor/matrix/DAG_algorithm_impl.py'), ('index expansion of the sparse solver', 'phasor/matrix/scisparse_algorithm.py')],
    observe=['inverse_solve_inplace'],
    tech='exhaustive enumeration of small array-valued coupling graphs against an index-by-index dense reference',
    note="Complete over the stated bounds, on the real solvers; index-by-index dense numpy reference.",
)
P(
    id='E01',
    title='Electrical networks obey Kirchhoff\'s laws and their element laws',
    statement="For every well-posed network of resistors, capacitors, inductors, cables, terminators, voltage/current/floating voltage sources and amplifiers, every "
              "voltage and current readout (in either direction, single-ended or differential) equals at DC and at every AC frequency the "
              "solution of Kirchhoff's laws with the law of each element. The answer does not depend on how the ports were joined (direct bonds in any order "
              "or connection elements), on the orientation of symmetric elements, or on the solver, and an unconnected port carries no current.",
    over=['inputs', 'configurations'],
    q="all ladders of 2 (3) stages, all 3-node multigraphs with up to 3 (4) series elements, every source x one or two loads x bonding style, single-amplifier feedback circuits, differential readings of every ordered pair of terminals; three AC frequencies and DC",
    why="Tests check a few fixed circuits of one or two elements at a single frequency.",
    files=['phasor/electronics/passive.py', 'phasor/electronics/smatrix.py', 'phasor/electronics/elements.py', 'phasor/electronics/elements.py', 'phasor/electronics/multimeter.py', 'phasor/electronics/opamps.py', 'phasor/electronics/sources.py', 'phasor/readouts/AC.py'],
    mech=[('scattering matrices', 'phasor/electronics/smatrix.py'), ('connection scattering', 'phasor/electronics/elements.py'), ('wave readouts', 'phasor/electronics/multimeter.py')],
    observe=['DC_readout', 'AC_sensitivity'],
    tech='exhaustive enumeration of small circuits on the real simulator against a sparse-tableau reference',
    note="Complete over the stated circuit families and three frequencies, real simulator end to end; trusts the independent tableau of Kirchhoff and element laws. Transformers are out of scope (see DESIGN.md).",
)
P(
    id='O01',
    title='Optical powers follow the scattering of the elements and power is conserved',
    statement="For every well-posed network of lasers, mirrors and beamsplitters (with loss, phase, sign flip and backscatter), spaces, polarization rotators, Faraday "
              "rotators, wave plates, polarizing mirrors, beamsplitters and selectors, circulators and idle modulators, the DC power on every "
              "photodiode, at the free ports or inserted in a link, equals the solution of the scattering equations of the elements for both polarizations. "
              "Lossless networks conserve power, no network emits more than it receives, and the solver used makes no difference.",
    over=['inputs', 'configurations'],
    q="all chains of up to 2 (3) oriented elements, all two-mirror cavities around up to 2 (3) elements, a beamsplitter with every combination of stubs or loops, pairs of beamsplitters, multi-ports with every combination of stubs; two solvers",
    why="The tests compute a few fixed interferometers; orientation, polarization mixing, and multi-path interference are not covered.",
    files=['phasor/optics/mirror.py', 'phasor/optics/space.py', 'phasor/optics/polarization.py', 'phasor/optics/selectors.py', 'phasor/optics/selective_mirrors.py', 'phasor/optics/circulator.py', 'phasor/optics/laser.py', 'phasor/optics/photodiode.py'],
    mech=[('mirror couplings', 'phasor/optics/mirror.py'), ('propagation phase', 'phasor/optics/space.py'), ('polarization elements', 'phasor/optics/polarization.py'), ('detection', 'phasor/optics/photodiode.py')],
    observe=['DC_readout'],
    tech='exhaustive enumeration of small optical networks on the real simulator against a dense scattering reference',
    note="Complete over the stated network spaces; trusts the independently written scattering matrices and numpy.linalg. Ill-conditioned resonances are not judged.",
)
P(
    id='O02',
    title='AC responses to mirror motion and modulators follow the sidebands',
    statement="For every well-posed optical network, the AC response of every photodiode to the position of every mirror or beamsplitter and to the drive of "
              "every amplitude or phase modulator equals, at each audio frequency, the beat of the carrier with the two first order sidebands propagated through the whole network, "
              "with both polarizations and all round trips, and an array of frequencies gives the responses at each of them.",
    over=['inputs', 'configurations'],
    q="chains, cavities, beamsplitter and multi-port networks as in the DC property, every mirror and modulator driven, three frequencies between 20 Hz and 1.2 kHz with 250 km arms",
    why="Tests check few responses in symmetric set-ups at low frequency, where the phase and the conjugate sideband are not told apart.",
    files=['phasor/optics/mirror.py', 'phasor/optics/modulators.py', 'phasor/optics/space.py', 'phasor/optics/nonlinear_utilities.py', 'phasor/readouts/AC.py', 'phasor/system/matrix_injections.py'],
    mech=[('sideband generation', 'phasor/optics/nonlinear_utilities.py'), ('modulators', 'phasor/optics/modulators.py'), ('AC readout', 'phasor/readouts/AC.py')],
    observe=['AC_sensitivity'],
    tech='exhaustive enumeration of small optical networks on the real simulator against a dense two-sideband reference',
    note="Complete over the stated network spaces at three frequencies; first order sidebands, reference in numpy.",
)
P(
    id='O03',
    title='Linear optical networks carry exactly vacuum noise',
    statement="In every linear network of lasers and passive optics, the noise of a photodiode which absorbs light is exactly its shot noise, and the noise seen by "
              "a transparent photodiode inside the network is the sum of independent vacuum fields entering at every laser, photodiode and loss, each propagated through the whole network; in a system with two sided spectra it is half of that.",
    over=['inputs', 'configurations'],
    q="chains, cavities, beamsplitter and multi-port networks as in the DC property, every detector, three frequencies",
    why="Quantum noise bookkeeping (which vacuum enters where, with what amplitude, correlations between polarizations and sidebands) is checked by tests on a handful of lossless set-ups.",
    files=['phasor/optics/vacuum.py', 'phasor/optics/mirror.py', 'phasor/readouts/noise.py', 'phasor/system/system.py', 'phasor/optics/photodiode.py', 'phasor/optics/laser.py'],
    mech=[('vacuum injection', 'phasor/optics/vacuum.py'), ('noise correlator summation', 'phasor/readouts/noise.py')],
    observe=['NoiseReadout.CSD'],
    tech='exhaustive enumeration of small optical networks on the real simulator against a dense vacuum-propagation reference',
    note="Complete over the stated network spaces at three frequencies; trusts the reference model of vacuum inputs.",
)
P(
    id='O07',
    title='Polarization around a closed path of mirrors',
    statement="For every closed path of beams between mirrors the circulation matrix of the polarizations is the product of the reflections at all mirrors of the path: orthogonal, of determinant minus one to the number "
              "of mirrors, diagonal for flat paths, a rotation by the solid angle of the beam directions (alternately reversed) for even numbers of mirrors, and the same for moved, turned and scaled paths.",
    over=['inputs'],
    q="all closed paths of 3 to 5 corners of a cube (8736), sheared paths of 3, 4 and 6 points out of 6 (all orders), moved, turned, scaled",
    why="Errors of order, basis or normalization vanish on flat and symmetric paths.",
    files=['phasor/optics/tools/polizarization_circulation.py'],
    mech=[('circulation of polarizations', 'phasor/optics/tools/polizarization_circulation.py')],
    observe=['polarization_circulation'],
    tech='exhaustive enumeration of closed paths on the real function against products of reflections and the geometric phase',
    note="Complete over the stated bounds on the real function.",
)
P(
    id='S01',
    title='Answers do not depend on the order in which the simulator works its queues',
    statement="The simulator builds and solves a model by draining unordered worklists (ports to propagate, couplings to request, elements to set up, nodes to eliminate, "
              "beat frequencies to try). Every readout - DC, AC response, noise - is the same whichever order these worklists are drained in, the set-up "
              "terminates in every order, and no order raises an error.",
    over=['schedules', 'configurations'],
    q="every pop order of small systems, every order with a bounded number of deviations from the default order, and 8 (27) global orders of the whole solve, over 14 systems covering optics, electronics, mechanics, signals and nonlinear optics",
    why="A test run sees a single order per interpreter build and hash seed; the number of orders is exponential.",
    files=['phasor/system/system.py', 'phasor/system/solver_algorithm.py', 'phasor/matrix/DAG_algorithm.py', 'phasor/optics/mirror.py', 'phasor/optics/nonlinear_crystal.py'],
    mech=[('port key propagation', 'phasor/system/system.py'), ('solver passes', 'phasor/system/solver_algorithm.py')],
    observe=['DC_readout', 'AC_sensitivity', 'NoiseReadout.CSD'],
    tech='stateless exploration of worklist schedules of the real simulator with a controlled scheduler',
    note="All interleavings within a deviation bound on the real code; the schedule is injected by replacing the set type the simulator's modules use. Worklists kept in other containers run in their own order.",
)
P(
    id='S02',
    title='The answers do not depend on the order of construction or the direction of bonds',
    statement="A model is defined by its elements and their connections alone: building elements in any order, bonding ports in any order and in either direction, "
              "splitting a link by an element that does nothing, writing it in any of the equivalent ways (elements added by insert, own.name or own[name]; bonds written on the system, on either port or as a sequence), "
              "and having other systems alive or solved in between all leave every readout unchanged.",
    over=['configurations', 'histories'],
    q="all element orders and bond orders up to a bound (rotations and adjacent swaps beyond), every subset of up to two bond flips, an identity element in every link, all ways to write elements and bonds, pairs of systems interleaved, over 14 systems",
    why="Each test builds its model in one order with one direction of the bonds.",
    files=['phasor/system/system.py', 'phasor/base/ports.py', 'phasor/base/autograft.py', 'phasor/optics/bases.py', 'phasor/electronics/elements.py'],
    mech=[('bond inclusion', 'phasor/system/system.py'), ('object tree', 'phasor/base/autograft.py')],
    observe=['DC_readout', 'AC_sensitivity', 'NoiseReadout.CSD'],
    tech='exhaustive enumeration of construction histories of the real simulator, compared with each other',
    note="Complete over the stated orders for 14 systems, real simulator end to end.",
)
P(
    id='S03',
    title='Solving an array of parameters equals solving each value separately',
    statement="Giving an array for the AC frequency or for parameters of elements (broadcast against each other) returns for every readout, at each index, what a separate "
              "system with the scalar parameters of that index returns; so do arrays for modulation frequencies.",
    over=['inputs', 'configurations'],
    q="every parameter and every pair of parameters of the 14 systems, with arrays of 2 and 3 values including zeros, as vectors, outer products and with an array of AC frequencies; every parameter of 20 single elements likewise; iterated nonlinear cavities; arrays of audio and modulation frequency and length on the same and different axes of a demodulated cavity",
    why="Tests sweep one parameter in one system; per-index structure (zeros at some indices, mixed shapes, conjugate symmetric responses) is not covered.",
    files=['phasor/matrix/DAG_algorithm.py', 'phasor/readouts/noise.py', 'phasor/readouts/AC.py', 'phasor/optics/nonlinear_crystal.py', 'phasor/system/matrix_injections.py', 'phasor/signals/siso_filter.py'],
    mech=[('broadcast in the solver', 'phasor/matrix/DAG_algorithm.py'), ('broadcast in noise readouts', 'phasor/readouts/noise.py')],
    observe=['DC_readout', 'AC_sensitivity', 'NoiseReadout.CSD'],
    tech='exhaustive enumeration of parameter arrays on the real simulator against index-by-index solves of the real simulator',
    note="Complete over the stated grid. Parameters which choose the structure of the model are scalar only and excluded.",
)
P(
    id='S04',
    title='Readouts only read',
    statement="Asking for a readout never changes another answer: querying readouts in any order and any number of times, adding or leaving out any readout of a model, or "
              "placing the same readout twice gives the same values; arrays passed in by the caller are not modified and overwriting the arrays a readout returned does not change what other readouts answer.",
    over=['histories', 'configurations'],
    q="all query orders and repetitions of up to 3 (4) readouts, every subset of the readouts, every readout doubled, in-place modification of returned arrays, over 14 systems; all 45 quantities of homodyne, transfer, loop gain, noise and static readouts of a cavity with and without feedback, each first; a test point at every signal output",
    why="Tests read each output once with a fixed set of readouts.",
    files=['phasor/readouts/AC.py', 'phasor/readouts/DC.py', 'phasor/readouts/noise.py', 'phasor/readouts/homodyne_AC.py', 'phasor/system/solver_algorithm.py', 'phasor/mechanical/multimeter.py'],
    mech=[('request of responses', 'phasor/readouts/AC.py'), ('memoized readouts', 'phasor/readouts/noise.py')],
    observe=['DC_readout', 'AC_sensitivity', 'AC_PSD'],
    tech='exhaustive enumeration of query histories and readout subsets on the real simulator',
    note="Complete over the stated query histories and subsets.",
)
P(
    id='S05',
    title='Whole models give the same answers with every solver',
    statement="The choice of solver is a performance matter only: for every model the loop-elimination, pivoting (dense or purging) and sparse solvers give the same DC values, AC responses and noise, and so do more iterations than a model needs to converge.",
    over=['configurations', 'inputs'],
    q="14 systems spanning all domains, four solver settings, all single parameter variations and array shapes of the AC frequency; networks with real couplings",
    why="The tests use one solver per model.",
    files=['phasor/matrix/solvers_registry.py', 'phasor/matrix/DAG_algorithm.py', 'phasor/matrix/DAG_algorithm_impl.py', 'phasor/matrix/scisparse_algorithm.py', 'phasor/system/solver_algorithm.py'],
    mech=[('solver selection', 'phasor/matrix/solvers_registry.py')],
    observe=['DC_readout', 'AC_sensitivity', 'NoiseReadout.CSD'],
    tech='exhaustive enumeration of solver and parameter settings on the real simulator, compared with each other',
    note="Complete over the stated grid. Agreement only; correctness against references is decided by M01, E01, O01-O03.",
)
P(
    id='S06',
    title='A regenerated or continued system answers like a freshly built one',
    statement="Rebuilding a system from its own object tree (once or repeatedly, before or after solving, with or without parameter overrides) gives a system whose readouts equal those "
              "of a freshly constructed system with the same parameters; the original keeps its answers. Settings of the system (sidedness, frequencies, thermal noise) may be changed the same way. Continuing from a previous solution gives the same solution.",
    over=['histories', 'configurations'],
    q="chains of up to 3 (4) regenerations interleaved with solves, every parameter overridden by tree or argument, and every continuation from a solved system, over 14 systems",
    why="Tests regenerate a system once, at one stage.",
    files=['phasor/system/system.py', 'phasor/base/bases.py', 'phasor/base/autograft.py', 'phasor/system/system.py', 'phasor/optics/bases.py'],
    mech=[('construction tree', 'phasor/base/autograft.py'), ('continuation', 'phasor/system/solver_algorithm.py')],
    observe=['DC_readout', 'AC_sensitivity', 'NoiseReadout.CSD'],
    tech='exhaustive enumeration of regeneration histories on the real simulator, compared with fresh systems',
    note="Complete over the stated histories. One known finding (systems with harmonic selectors) is listed.",
)
P(
    id='S07',
    title='Open ports behave as terminated ports',
    statement="A port left unconnected behaves exactly as if terminated explicitly by the terminator of its domain (vacuum for light, matched or open for wave ports as documented, no signal for "
              "signal ports): every readout, including the noise entering there, is identical with the explicit terminator or an absorbing photodiode, on any subset of the open ports.",
    over=['configurations'],
    q="every subset (up to a bound) of the open ports of 14 systems and their variants closed explicitly by each kind of terminator",
    why="Tests terminate ports in one way per model.",
    files=['phasor/system/system.py', 'phasor/optics/vacuum.py', 'phasor/electronics/elements.py', 'phasor/mechanical/elements.py', 'phasor/optics/bases.py'],
    mech=[('automatic termination', 'phasor/system/system.py')],
    observe=['DC_readout', 'AC_sensitivity', 'NoiseReadout.CSD'],
    tech='exhaustive enumeration of terminations on the real simulator, compared with each other',
    note="Complete over the stated subsets of open ports.",
)
P(
    id='S08',
    title='The AC response at low frequency is the slope of the DC operating point',
    statement="At vanishing frequency the AC response of a readout to the modulation of a parameter (mirror position, laser power, seed or pump of a crystal, amplitude or phase of a "
              "generator, source voltage, force) equals the derivative of its DC operating point with respect to this parameter, at every operating point, linear or nonlinear.",
    over=['inputs', 'configurations'],
    q="34 pairs of response and operating point in 10 systems, at all multiples (2, 4 in the thorough tier) of every parameter and every pair of parameters",
    why="The tests compare responses with fixed numbers at one operating point; linearization at other operating points of the nonlinear elements is not checked.",
    files=['phasor/system/matrix_injections.py', 'phasor/optics/nonlinear_utilities.py', 'phasor/optics/ODE_solver.py', 'phasor/optics/AOM.py', 'phasor/signals/mixer.py', 'phasor/optics/modulators.py'],
    mech=[('linearization of products', 'phasor/system/matrix_injections.py'), ('derivative of the integrated crystal', 'phasor/optics/ODE_solver.py')],
    observe=['AC_sensitivity', 'DC_readout'],
    tech='exhaustive enumeration of operating points on the real simulator, response against the difference of two operating points',
    note="Complete over the stated grid of operating points. Central differences, so agreement to 2e-4.",
)

P(
    id='S09',
    title='Ill-formed models are refused',
    statement="A model which is not well-formed raises an error instead of answering: a port of light with two partners, a port bonded to itself, a bond between two systems, an element without a parameter it needs "
              "or with one it does not have, an unknown solver or direction of a readout; in whatever order, direction and way the bonds are written. The same models without the mistake answer.",
    over=['inputs', 'configurations', 'histories'],
    q="all pairs of bonds among 7 ports of 4 optical elements in 3 ways, bonds across systems for 8 ports of 4 domains, 51 elements without parameters, 43 elements with unknown parameters, settings out of range",
    why="The tests build well-formed models only; a mistake that is answered looks like a result.",
    files=['phasor/system/system.py', 'phasor/optics/ports.py', 'phasor/electronics/ports.py', 'phasor/mechanical/ports.py', 'phasor/signals/ports.py', 'phasor/base/bases.py'],
    mech=[('bonds', 'phasor/optics/ports.py'), ('pairs of bonds', 'phasor/system/system.py'), ('parameters', 'phasor/base/bases.py')],
    observe=['bond', 'bond_sequence', 'DC_readout', 'construction of elements'],
    tech='exhaustive enumeration of pairs of bonds, elements and settings on the real simulator',
    note="Complete over the stated bounds. Bonds between different domains and repeated bonds of the same pair are not judged.",
)

P(
    id='G01',
    title='Signal block diagrams compute the algebra of their blocks',
    statement="A network of filters, gains, sums, distributions, matrix and state space blocks, closed in any pattern of loops, has between every two points the response, loop gain, plant gain and noise "
              "of the linear algebra of its blocks at every frequency; mixers, modulators and frequency doublers compute the spectra (amplitudes, phases and first order AC response) of the products of the time signals.",
    over=['inputs', 'configurations'],
    q="all directed graphs of 2 and 3 blocks over a palette of 8 filters, all sparsity patterns of 2 by 2 systems, 178 filters, every expression tree of 1 operator over 5 leaves and 2 operators over 3 (4) leaves",
    why="The tests build a few loops and one mixer; combinations of loops, harmonics, quadratures and DC are not covered.",
    files=['phasor/signals/siso_filter.py', 'phasor/signals/ZPSOS.py', 'phasor/signals/state_space.py', 'phasor/signals/mixer.py', 'phasor/signals/amplifiers.py', 'phasor/signals/RMS.py', 'phasor/signals/noise.py', 'phasor/readouts/AC.py'],
    mech=[('filters', 'phasor/signals/siso_filter.py'), ('products', 'phasor/signals/mixer.py'), ('loop readouts', 'phasor/readouts/AC.py')],
    observe=['AC_sensitivity', 'CLG', 'OLG', 'GPlant', 'DC_readout', 'AC_PSD'],
    tech='exhaustive enumeration of block diagrams and expression trees on the real simulator against dense algebra and Fourier series',
    note="Complete over the stated diagrams and trees; products are judged where the limit of the order of frequencies does not truncate them.",
)

P(
    id='G02',
    title='Designed filters have the response they are designed for',
    statement="Legendre filters of every order up to 25 have the optimal polynomial (unit value and the largest slope at the edge of the band, monotonic in the band), stable poles in pairs and the response of this polynomial; "
              "the building blocks of loop controllers are stable, have unit gain at their frequency, the modulus of the Chebyshev and Butterworth responses they are quotients of, and a response which scales with their frequency; products, quotients and shifts of zeros and poles have the product, quotient and shift of the responses; "
              "sorting roots loses none, and a controller handed over to a filter of a network has the same response there, with unit gain at the frequency asked for.",
    over=['inputs'],
    q="orders 0 to 18 (25) with both root finders; 5 sets of roots as zeros and poles of all pairs of factors; building blocks x shifts x orders x frequencies; 3 controllers",
    why="A wrong order, parity, pair or normalization gives a filter which still looks like one; no test calls these functions.",
    files=['phasor/signals/filters/legendre_filters.py', 'phasor/signals/power_loops.py', 'phasor/signals/ZPSOS.py'],
    mech=[('polynomials and poles', 'phasor/signals/filters/legendre_filters.py'), ('controllers and algebra', 'phasor/signals/power_loops.py'), ('filters of a network', 'phasor/signals/ZPSOS.py')],
    observe=['optimum_poly', 'legendreap', 'zpk_mult', 'zpk_div', 'shift_to', 'sort_roots', 'ledge_controller', 'ledge_boost', 'cheby_boost', 'controller_*', 'ACReadout.AC_sensitivity'],
    tech='exhaustive enumeration of orders, sets of roots and parameters on the real functions against exact polynomials and the products of the factors',
    note="Complete over the stated bounds on the real functions. The Chebyshev plateaus and the sign of the gain of the rational filter are not claimed.",
)
P(
    id='A01',
    title='Beam layouts: ray matrices and Gaussian beams through any arrangement of optics',
    statement="A layout of lenses, mirrors, thick optics, spaces and nested layouts (reversed, truncated, inserted in any order, queried in between, regenerated with other values) has between every two faces, "
              "targets or positions the ray matrix of tracing its surfaces in order; matrices compose and invert; beams, waists, Gouy phases, overlaps and cavity modes computed from it are those of these matrices.",
    over=['inputs', 'configurations', 'histories'],
    q="all sequences of up to 2 (3) of 12 optics, three nested layouts with all reversals, all insertion orders of 4 optics with queries between, all truncations, all products of up to 3 (4) matrices on 5 beams",
    why="The tests place one or two lenses, query once, and judge a single overlap; thick optics, indices, reversal and repeated queries are not judged.",
    files=['phasor/alm/system.py', 'phasor/alm/bases.py', 'phasor/alm/composites.py', 'phasor/alm/space.py', 'phasor/alm/beam_param.py', 'phasor/alm/measurements.py', 'phasor/alm/target.py', 'phasor/alm/utils.py'],
    mech=[('placement of objects', 'phasor/alm/system.py'), ('beam parameter', 'phasor/alm/beam_param.py'), ('queries', 'phasor/alm/measurements.py')],
    observe=['RootSystem.matrix_between', 'Measurements.q_target_z', 'Measurements.overlap', 'waist_descriptions'],
    tech='exhaustive enumeration of layouts and of histories of insertions and queries on the real code against surface by surface ray tracing',
    note="Complete over the stated layouts. Thin lenses and generic matrices only in an environment of index 1; mounts are excluded.",
)

P(
    id='K01',
    title="Mechanical networks obey Newton's laws and fluctuate as they dissipate",
    statement="Any network of springs, lossy springs, dampers, masses, inerters, levers, piezo actuators, delay lines, terminations and sources has the displacements and forces that equal displacements and "
              "balanced forces at every connection dictate, at every frequency of either sign, and its thermal motion is 4kT times its dissipation: readouts, sources and bonding order make no difference, in systems with one or two sided spectra, with or without thermal noise. The model of a tip tilt suspension responds as the constrained rigid body of its parameters.",
    over=['inputs', 'configurations'],
    q="all ladders of 2 (3) stages, all 3-node multigraphs with up to 3 (4) elements, all levers over a grid of vectors, every pair of sources and loads, differential readings of every ordered pair of terminals, 3 bonding styles, a suspension with up to 2 (8) of 8 parameters changed",
    why="The tests check a handful of one-element circuits and no network, lever or thermal noise.",
    files=['phasor/mechanical/passive.py', 'phasor/mechanical/sources.py', 'phasor/mechanical/elements.py', 'phasor/mechanical/xyz.py', 'phasor/mechanical/noise.py',
           'phasor/mechanical/multimeter.py', 'phasor/mechanical/string.py', 'phasor/mechanical/models/HTTS.py', 'phasor/readouts/AC.py'],
    mech=[('elements', 'phasor/mechanical/passive.py'), ('automatic junctions', 'phasor/mechanical/ports.py')],
    observe=['DC_readout', 'AC_sensitivity', 'NoiseReadout.CSD'],
    tech='exhaustive enumeration of mechanical networks on the real simulator against a dense tableau',
    note="Complete over the stated networks; ill posed networks are skipped. One known finding (strings) is listed.",
)
P(
    id='E02',
    title='Electrical noise: thermal equilibrium and superposition',
    statement="In any network at one temperature the cross spectrum between any two voltages is 4kT times the real part of the impedance between them (Nyquist), whatever the elements, directions and ports; "
              "with amplifiers (also the models of vendors' amplifiers and of a photodiode amplifier, which have the gain and noise of their data) and added sources it is the superposition of every source through the response of the network, one or two sided, with or without thermal noise, the same from readouts of voltage and current, and what each source contributes is what is reported for it.",
    over=['inputs', 'configurations'],
    q="all networks of up to 3 nodes over the passive elements, 4 amplifier circuits (two stages in the thorough tier) with noisy amplifiers, one or two added noises at every port of 5 networks, 7 models of vendors' amplifiers in 4 circuits of 16 feedbacks",
    why="Tests verify 4kTR at the terminals of one resistor.",
    files=['phasor/electronics/elements.py', 'phasor/electronics/noise.py', 'phasor/electronics/opamps.py', 'phasor/electronics/models/vendor_opamps.py', 'phasor/electronics/multimeter.py', 'phasor/readouts/noise.py', 'phasor/system/matrix_algorithm.py'],
    mech=[('noise sources', 'phasor/electronics/noise.py'), ('noise matrix', 'phasor/readouts/noise.py')],
    observe=['NoiseReadout.CSD'],
    tech='exhaustive enumeration of noisy networks on the real simulator against a dense tableau and the fluctuation-dissipation theorem',
    note="Complete over the stated networks; ill posed networks are skipped.",
)
P(
    id='O04',
    title='Light and moving mirrors form the closed loop of their parts',
    statement="Light pushes mirrors with the momentum it loses; a mirror moves as its mechanical network dictates; and any arrangement of light, mirrors and mechanics responds to modulators, forces and "
              "displacements, and fluctuates by quantum noise, as the closed loop of radiation pressure, mechanical mobility and optical response (optical springs, rigid and sprung mirror pairs).",
    over=['inputs', 'configurations'],
    q="mirrors and beamsplitters lit from every (pair of) port, cavities and Michelsons over lengths, detunings, orientations, any subset of mirrors moving with 14 mechanical networks; all responses and all spectra",
    why="One stress test compares one noise curve; no test computes a force, a displacement or an optical spring.",
    files=['phasor/optics/mirror.py', 'phasor/optics/nonlinear_utilities.py', 'phasor/mechanical/ports_driven.py', 'phasor/system/matrix_injections.py'],
    mech=[('radiation pressure', 'phasor/optics/nonlinear_utilities.py'), ('driven port', 'phasor/mechanical/ports_driven.py')],
    observe=['AC_sensitivity', 'DC_readout', 'NoiseReadout.CSD'],
    tech='exhaustive enumeration of optomechanical systems on the real simulator against dense optics, mechanical tableaux and their closed loop',
    note="Complete over the stated systems. Two known findings (force law and mechanical port of a mirror, both pinned by a stable test) are listed; the closed loop is judged with the measured laws.",
)
P(
    id='O05',
    title='Nonlinear crystals and acousto optic modulators convert light as their laws say',
    statement="A nonlinear crystal exchanges power between fundamental and second harmonic as the coupled wave equations say (for every strength, power and "
              "relative phase of both colours, in single pass, double pass and chains of crystals with spaces and losses), including the "
              "response to amplitude and phase modulation of both colours and the quantum noise and squeezing of every quadrature of both colours with all correlations (also as the noise matrices of the models of test stands report them); an acousto optic modulator "
              "diffracts cos^2/sin^2 of half pi times its drive amplitude between its two beams, in the direction and with the frequency shift and phase of the drive "
              "(so that light of the right frequencies interferes), responds to modulation of the drive, transmits light when it is not driven (and light which the drive would shift out of the orders kept), conserves energy and adds no excess noise. The discretized integration converges to these laws.",
    over=['inputs', 'configurations'],
    q="all sequences of up to 2 (3) crystals, spaces and losses times inputs, single and double pass (powers, responses, correlations of all quadratures); a grid of strengths, powers and phases; three models of test stands; all one and two modulator "
      "arrangements over direction, input beams, arm exchange, detuning, shared and separate generators, amplitudes",
    why="The tests convert at one power from one side and compare only total powers; phases, sidebands, other ports, noise and combinations are not reached.",
    files=['phasor/optics/nonlinear_crystal.py', 'phasor/optics/ODE_solver.py', 'phasor/optics/AOM.py', 'phasor/optics/nonlinear_utilities.py', 'phasor/signals/signal_generator.py',
           'phasor/optics/selectors.py'],
    mech=[('crystal couplings', 'phasor/optics/nonlinear_crystal.py'), ('integrator and its derivative matrix', 'phasor/optics/ODE_solver.py'), ('acousto optic couplings', 'phasor/optics/AOM.py')],
    observe=['DC_readout', 'AC_sensitivity', 'NoiseReadout.CSD', 'full_noise_matrix'],
    tech='exhaustive enumeration of small conversion set-ups on the real simulator against integrated coupled wave equations and two beam scattering',
    note="Complete over the stated bounds. Answers at three numbers of integration steps are extrapolated and compared to 1.5e-3 (crystals) and 4e-3 (modulators) of the scale. "
         "Powers with more than about one nonlinear length, imperfect phase matching and non-collinear effects are not covered.",
)
P(
    id='O06',
    title='Demodulated signals and quadratures are the products of the fields',
    statement="For light modulated in amplitude and phase at a radio frequency (any amplitudes, phases, order of the modulators, before or inside cavities and "
              "interferometers), detected power, its demodulated I and Q at any oscillator phase, their responses to mirror motion and modulation, and their quantum noise with "
              "all cross spectra are those of the product of the field and its conjugate with the oscillator, every order travelling at its own frequency. "
              "Quadrature detectors give the real part of the product with their oscillator field at every phase and place of the oscillator (normalized, in quanta, or "
              "relative), and the rotated homodyne readouts (response, noise, noise by source, extreme noises, angle of least noise and of best readout) follow from them by rotation.",
    over=['inputs', 'configurations'],
    q="chains of up to two modulators, cavities in reflection and transmission, Michelson interferometers over modulation types, amplitudes, phases, lengths, detunings; "
      "quadrature detectors over 4 oscillator places, phases, lines, cavities and interferometers",
    why="One test demodulates one configuration and the AOM and VCO tests look at single quadratures; phases, both outputs, transmission, noise after demodulation and rotated readouts are not reached.",
    files=['phasor/optics/nonlinear_utilities.py', 'phasor/optics/modulators.py', 'phasor/optics/photodiode.py', 'phasor/optics/hidden_variable_homodyne.py', 'phasor/signals/mixer.py',
           'phasor/readouts/homodyne_AC.py', 'phasor/readouts/noise.py'],
    mech=[('modulation couplings', 'phasor/optics/nonlinear_utilities.py'), ('mixer', 'phasor/signals/mixer.py'), ('quadrature detector', 'phasor/optics/hidden_variable_homodyne.py'),
          ('rotated readout', 'phasor/readouts/homodyne_AC.py')],
    observe=['DC_readout', 'AC_sensitivity', 'NoiseReadout.CSD', 'HomodyneACReadout.AC_CSD_IQ'],
    tech='exhaustive enumeration of modulated networks on the real simulator against a Fourier series reference of fields and products',
    note="Complete over the stated bounds: single modulation frequency, orders truncated at 1 (2) in simulator and reference alike, amplitude conventions as stated in DESIGN.md.",
)
P(
    id='U01',
    title='Priority queues give the least element, under every history and interleaving',
    statement="For every history of push, pop, pushpop, replace, peek, remove and len on the heap queues, from every initial content, each operation returns or removes an "
              "element of least priority and the content is the multiset of what was put in and not taken out. The thread safe queue's operations are "
              "atomic: in every interleaving of concurrent operations the results are those of some sequential order.",
    over=['inputs', 'histories', 'schedules'],
    q="every history of up to 4 (5) operations from every initial content of up to 4 elements; all schedules of concurrent operations of 2 and 3 threads within a deviation bound",
    why="No test touches the queues; the elimination order and the reduction of graphs depend on them, and a race needs a particular interleaving.",
    files=['phasor/utilities/priority_queue/heap_priority_queue.py'],
    mech=[('heap queue', 'phasor/utilities/priority_queue/heap_priority_queue.py')],
    observe=['HeapPriorityQueue', 'HeapPriorityQueueThreadsafe'],
    tech='stateless exploration of all operation histories and all thread interleavings within a deviation bound, on the real queues',
    note="Complete over the stated bounds; thread switches at every line, lock and comparison of the real methods under a controlled scheduler; linearizability against a multiset.",
)
P(
    id='U02',
    title='The Complex pair and the dispatched functions compute like complex numbers',
    statement="Every arithmetic expression of Complex objects, floats, complex numbers and arrays (in either order) has the value of the same "
              "expression of complex numbers: sums, products, quotients, powers, modulus, conjugate, argument, exponential, comparison and hash. Each dispatched elementary function gives for "
              "every supported type of argument the value of the function. The bits of integers and the interpolation helper are exact.",
    over=['inputs'],
    q="all pairs of components times 10 types of the second operand, all expressions of four leaves, 29 exponents, 15 functions times 7 types times 7 values, all integers below 2^14 (2^18)",
    why="No test uses these types; each combination of operand types is a separate branch.",
    files=['phasor/math/complex.py', 'phasor/math/dispatched.py', 'phasor/math/dispatch_defaults.py', 'phasor/math/numerics.py'],
    mech=[('complex pairs', 'phasor/math/complex.py'), ('dispatch', 'phasor/math/dispatch_defaults.py')],
    observe=['Complex', 'dispatched'],
    tech='exhaustive enumeration of expressions over a finite set of values and operand types against complex arithmetic',
    note="Complete over the stated bounds on the real types; complex exponents and left array operands are not claimed.",
)
P(
    id='U03',
    title='Keyed vectors and matrices agree with their dictionaries under every history',
    statement="After every history of setting, multiplying, adding in place, deleting and reading (by key, by nested map, by array, as sum of matrices, mapped back from an array) a keyed "
              "vector or matrix has the entries a dictionary treated the same way would have; its array view (of whatever value shapes), index maps, "
              "products and inverses agree with them, and arrays handed in are not modified.",
    over=['inputs', 'histories'],
    q="every history of up to 3 operations of matrices and vectors with scalar and array values, observed after each operation; all histories of 3 (4) operations of key spaces",
    why="No test uses these classes; their caches go stale only for particular orders of reading and writing.",
    files=['phasor/math/key_matrix/keymatrix.py'],
    mech=[('keyed matrices', 'phasor/math/key_matrix/keymatrix.py'), ('array views', 'phasor/math/key_matrix/keymatrix.py')],
    observe=['KeyMatrix', 'KeyVector', 'KVSpace'],
    tech='exhaustive exploration of operation histories on the real classes against a dictionary model',
    note="Complete over the stated bounds on the real classes; the model is a dictionary with numpy broadcasting.",
)
P(
    id='U04',
    title='Array utilities report what the arrays hold',
    statement="For every array of flags the sections reported are exactly its runs of true entries (joined over gaps shorter than asked, limited as asked) and the sections between them the complement; "
              "sorting, interval limits and (masked) sort indices agree with the definition for every array; the first entry which is not missing is found wherever it is; "
              "continuous phases differ from the angle by whole turns only and (within about a turn of their end) have no steps above half a turn, group delays are the derivative of the phase, signed magnitudes and phases reproduce the numbers, and logarithmic ranges "
              "have equal ratios and the given ends.",
    over=['inputs'],
    q="all arrays of up to 10 flags (13 thorough), all arrays of 4 (5) entries over 4 values with all masks, all counts of missing numbers of arrays up to 33 (69), all walks of up to 5 (6) phase steps",
    why="The edges (first, last, all, none, one entry), joins and windings only go wrong for particular patterns; no test calls these functions.",
    files=['phasor/utilities/np.py'],
    mech=[('sections and sorting', 'phasor/utilities/np.py'), ('phases and delays', 'phasor/utilities/np.py')],
    observe=['generate_sections', 'generate_antisections', 'domain_sort', 'interval_limit', 'argsort', 'masked_argsort', 'first_non_NaN', 'continuous_phase', 'group_delay', 'mag_phase_signed', 'logspaced'],
    tech='exhaustive enumeration of flag arrays, entry arrays, masks and phase walks on the real functions against their definitions',
    note="Complete over the stated bounds on the real functions; search_local_sorted and common_type are not claimed (their conventions are unclear).",
)
P(
    id='U05',
    title='Numbers written for the user are the numbers',
    statement="Whatever a number's size, sign, type and the precision asked for, its text (a length or angle with an SI prefix, the text of a beam, the description of a lens or mirror, the label of a logarithmic tick) "
              "reads back as the number within half a digit of this precision, and writing it never raises an error.",
    over=['inputs'],
    q="9 mantissas around every change of prefix or digits in 32 (54) decades, both signs, 3 types, 7 precisions; 312 beams; 7 curvatures (pairs) of 6 optics; all ticks of 38 (120) decades in 8 roundings",
    why="Prefixes, digits and rounding only go wrong in some decades or at some boundaries, and the result looks plausible (a tick of 3e-4 labelled 2e-4).",
    files=['phasor/alm/utils.py', 'phasor/alm/beam_param.py', 'phasor/alm/composites.py', 'phasor/utilities/mpl/logticks.py'],
    mech=[('prefixes', 'phasor/alm/utils.py'), ('text of a beam', 'phasor/alm/beam_param.py'), ('descriptions of optics', 'phasor/alm/composites.py'), ('labels of ticks', 'phasor/utilities/mpl/logticks.py')],
    observe=['unit_str', 'str_m', 'str(ComplexBeamParam)', 'lens_descriptions', 'mirror_descriptions', 'ticks_log_format'],
    tech='exhaustive enumeration of numbers over decades, mantissas, signs, types and precisions on the real functions, read back in exact rational arithmetic',
    note="Complete over the stated bounds on the real functions; ticks are those of logarithmic locators (digits times powers of ten).",
)
P(
    id='B01',
    title='Field keys behave like dictionaries and integer vectors',
    statement="Keys of fields are values: two keys are equal and hash alike exactly when they hold the same entries, however built; "
              "union, intersection, difference, containment and updates are those of dictionaries, and never modify their operands or follow the dictionaries they were built from. Frequency keys "
              "form integer vectors under sum, difference and multiples (zero entries do not matter) and their frequency is the linear combination.",
    over=['inputs'],
    q="all pairs of dictionaries over 3 names and 2 (3) values built 4 ways, all triples for the order, all pairs of vectors of 3 frequencies in 6 forms",
    why="Every coupling is looked up by such keys; a wrong hash or equality drops couplings silently and only for particular combinations of orders.",
    files=['phasor/base/dictionary_keys.py', 'phasor/base/frequency.py'],
    mech=[('dictionary keys', 'phasor/base/dictionary_keys.py'), ('frequency keys', 'phasor/base/dictionary_keys.py')],
    observe=['DictKey', 'FrequencyKey'],
    tech='exhaustive enumeration of pairs and triples of keys on the real classes against dictionaries and integer vectors',
    note="Complete over the stated bounds on the real classes. One known finding: the order of DictKeys does not order them.",
)
P(
    id='B02',
    title='A parameter is the same whatever its unit and whatever the way it is given',
    statement="A unit carrying parameter of an element (length, time, angle, frequency, power) given in any of its units, by any of its names, "
              "as a number, from the configuration tree, as another parameter or a computation of others (sums, differences, products, quotients) or as a quantity of the pint library, has the same physical value, read back in any "
              "unit. Giving it twice or in a wrong dimension is refused. Initial values for fitting and injection into the tree keep the value.",
    over=['inputs', 'configurations'],
    q="22 parameters times all units, all names, all pairs of units, 10 ways of computing a parameter",
    why="The tests give parameters in one or two units directly; each conversion and each way of giving them is a separate branch.",
    files=['phasor/base/multi_unit_args.py', 'phasor/base/simple_units.py', 'phasor/base/units.py', 'phasor/base/pint.py', 'phasor/optics/standard_attrs.py'],
    mech=[('unit arguments', 'phasor/base/multi_unit_args.py'), ('unit arithmetic', 'phasor/base/simple_units.py'), ('parameter declarations', 'phasor/optics/standard_attrs.py')],
    observe=['generate_L', 'SimpleUnitfulGroup', 'ElementRefValue'],
    tech='exhaustive enumeration of parameters, units and ways of giving them on the real elements against a unit table',
    note="Complete over the stated bounds; units of the same dimension as the parameter, elements built alone in a system.",
)
P(
    id='M03',
    title='Graph and matrix utilities give components, products and unitaries',
    statement="For every directed graph the topological sort yields exactly its strongly connected components, each after all it leads to, and reports a cycle "
              "exactly when there is one; purging removes exactly the nodes not reachable (forwards, or backwards) from the kept set, with their edges. For every sparse matrix of scalars or arrays the "
              "product, adjoint, copy and Gram-Schmidt unitary are those of the dense matrix, and stacked linear systems are solved as broadcasting says.",
    over=['inputs'],
    q="all digraphs of up to 4 (5) nodes, all sets of kept nodes, all products of 3x2 and 2x2 matrices over 4 values, 3x3 unitaries, all pairs of 11 stack shapes",
    why="The sort is used on no graph by the tests; failures need particular nestings of cycles.",
    files=['phasor/math/key_matrix/keymatrix_reduce_tarjan.py', 'phasor/matrix/matrix_generic.py', 'phasor/matrix/SRE_matrix_algorithms.py', 'phasor/matrix/linalg.py'],
    mech=[('components', 'phasor/math/key_matrix/keymatrix_reduce_tarjan.py'), ('purging', 'phasor/matrix/matrix_generic.py'), ('sparse matrices', 'phasor/matrix/SRE_matrix_algorithms.py')],
    observe=['topological_sort', 'purge_reqless_inplace', 'matrix_mult_sre'],
    tech='exhaustive enumeration of small graphs and sparse matrices on the real algorithms against closures and dense products',
    note="Complete over the stated bounds on the real functions; larger graphs and matrices are not covered.",
)
P(
    id='A02',
    title='Beams of a layout: overlaps, beams by name and position, misalignment',
    statement="With several beam targets in a layout (flat, nested, reversed, with or without a principal target) every pair of beams has the overlap of the Gaussian "
              "beams traced to each other (symmetric, the same wherever it is evaluated, the square of the integral of their profiles), each beam has at every target, end, position or array of positions the traced parameter, "
              "Gouy phases between any two places are those of the traced beam, and the loss of overlap by displacements and angles of optics is the quadratic form of the traced rays.",
    over=['inputs', 'configurations'],
    q="all pairs of 7 optics with three targets in 3 orders, flat and nested, both directions, two principal targets; all pairs of optics times beams for misalignment; all pairs of 5 beam profiles",
    why="One test compares a single overlap to 1; other pairs, sources, arrays, nested targets and excursions are not reached.",
    files=['phasor/alm/measurements.py', 'phasor/alm/beam_param.py', 'phasor/alm/target.py', 'phasor/alm/system.py'],
    mech=[('queries by target', 'phasor/alm/measurements.py'), ('beam parameter', 'phasor/alm/beam_param.py')],
    observe=['Measurements.overlap', 'Measurements.target_q', 'relative_gouy_phasor', 'target_excursions_angle'],
    tech='exhaustive enumeration of layouts with several beams on the real code against ray tracing and overlap integrals',
    note="Complete over the stated layouts; phases of overlaps and detuning reports are not claimed.",
)
