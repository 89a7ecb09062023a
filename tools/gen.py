#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (the prose lives here once)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the compiled sources (symbolic execution to verification conditions, z3 + normal-form prover)'


def P(id, title, statement, over, text, why, files, mech, note, level='proof', observe=(), state=()):
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe),
                         'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'hook_needed': None}, note=note, level=level)


PROPS = [
    P('P01', 'Element transfer matrices are the linear optics of the element',
      'For every moment-simulation element whose action is a transfer matrix (marker, BPM, drift, orbit corrector, sector bend, quadrupole, '
      'solenoid, electrostatic dipole, electrostatic quadrupole, user matrix), the matrix reported for each charge state is the documented '
      'linear-optics matrix of that element, evaluated for that charge state (its own charge, energy and rigidity, with the reference particle '
      'only where the model says so) and for the element parameters. This holds for every parameter value and sign, including the option '
      'switches (fit mode, vertical bend, real-parameter corrector, xy-rotation, field curves with scale factors and ranges) and the documented '
      'defaults of missing optional parameters; a missing required parameter is an error.',
      ['inputs', 'configurations'], 'all real parameter values, all particle energies and charges, any number of charge states',
      'the tests compare a few full lattices with stored numbers; most parameter signs, option switches and off-reference charge states never occur',
      ['src/moment.cpp', 'src/moment_sup.cpp'],
      [('recompute_matrix of each element', 'src/moment.cpp'), ('GetQuadMatrix/GetSolMatrix/GetSBendMatrix/GetEBendMatrix/GetEdgeMatrix/GetEEdgeMatrix', 'src/moment_sup.cpp')],
      'every matrix entry of every function proved equal to the specification formula for all inputs over the reals; field-curve loops are a bounded run-time contract check',
      observe=['transmat', 'moment0', 'moment1']),
    P('P02', 'One step transports every charge state by its own matrix',
      'Propagating a beam state through a matrix element applies, to each charge state, that charge state\'s own transfer matrix: the centroid '
      'becomes T m, the covariance T M T^t, and the reported transfer matrix is T (backward: its inverse). The path length changes by the element '
      'length, the reference phase and every charge-state phase advance by their own wave number times the length (bends also add the centroid '
      'phase change), and energies, charges and the number of charge states are unchanged. The result depends only on the input state and the '
      'element configuration, not on earlier propagations through the same element (repeats, other energies, other directions, failed attempts).',
      ['inputs', 'histories', 'configurations'], 'all states, both directions, every history of earlier uses of the element',
      'tests run each lattice once, forward, from one initial state; cached results and direction changes are hardly exercised',
      ['src/moment.cpp'], [('MomentElementBase::advance, ElementSBend::advance, check_cache', 'src/moment.cpp')],
      'postcondition, frame and cache invariant of advance proved for any number of charge states, both directions, empty and valid cache, normal and exceptional exit',
      observe=['moment0', 'moment1', 'transmat', 'phis', 'pos'],
      state=[('cached input/output', 'the last input for which the matrix was computed', 'src/flame/moment.h')]),
]

PROPS += [
    P('P03', 'A misaligned element acts as the aligned element in its shifted frame',
      'For every element that accepts misalignment (dx, dy, pitch, yaw, roll) the beam seen by the element is the laboratory beam moved into the '
      'element frame (shift and rotation about the element centre), the element acts on it as if aligned, and the result is moved back to the '
      'laboratory frame at the exit: transfer = exit-frame * aligned-transfer * entrance-frame, with the frames computed for the charge state '
      'concerned. With all five parameters zero or absent both frames are the identity. Misalignment never changes path length, energy or phase.',
      ['inputs', 'configurations'], 'all values and signs of the five parameters, all element lengths, any charge state',
      'one stored lattice exercises one combination of errors; signs, the centre offset and per-charge-state frames are not separated',
      ['src/moment.cpp', 'src/moment_sup.cpp'],
      [('MomentElementBase::get_misalign', 'src/moment.cpp'), ('RotMat', 'src/moment_sup.cpp'), ('recompute_matrix of the elements (order of the frames)', 'src/moment.cpp')],
      'frames proved entry by entry for all inputs over the reals, including the identity lemma; the conjugation is part of each recompute_matrix contract; the sextupole conjugation is bounded',
      observe=['transmat', 'moment0', 'moment1']),
    P('P04', 'Derived particle kinematics always follow from the independent values',
      'After recalc() of a state, the dependent values of the reference particle and of every charge state (total energy, gamma, beta, beta*gamma, '
      'sampling wavelength, sampling wave number) are the relativistic functions of its own charge, rest energy, kinetic energy and sampling '
      'frequency, whatever the dependent fields held before; independent values, moments and all else are unchanged. The rigidity is '
      'beta*W/(c Z). Two particles compare equal exactly when all independent values are equal (<= : all except the phase).',
      ['inputs'], 'all real values of the independent fields, any number of charge states, any stale dependent values',
      'tests see a few consistent particles, never stale fields or pairs that differ in a single field',
      ['src/flame/moment.h', 'src/moment.cpp'], [('Particle::recalc, Particle::Brho, operator==, operator<=', 'src/flame/moment.h'), ('MomentState::recalc', 'src/flame/moment.h')],
      'contracts of Particle::recalc/Brho/comparisons and of the recalc loop over all charge states proved', observe=['ref_*', 'gamma', 'beta', 'bg']),
    P('P05', 'Ensemble statistics are the charge-weighted moments of the charge states',
      'After each propagation step (and calc_rms()) moment0_env is the mean of the charge-state centroids weighted with the charges IonQ, '
      'moment1_env is the weighted mean of covariance plus outer product of the centroid offset from that mean (6x6 part; zero elsewhere), and '
      'moment0_rms the square root of its diagonal; for any number of charge states, any charges, whatever the fields held before. '
      'The per-charge-state moments are not changed.',
      ['inputs'], 'all charges and moments, any number of charge states', 'tests compare a few totals for nearly symmetric beams',
      ['src/moment.cpp'], [('MomentState::calc_rms', 'src/moment.cpp')],
      'postcondition of calc_rms proved for an arbitrary number of charge states (loops summarised to finite sums by induction)',
      observe=['moment0_env', 'moment0_rms', 'moment1_env']),
    P('P06', 'Copies of a beam state are exact and independent',
      'clone() of a state of any simulation type yields a state with the same path length, particles, moments, transfer matrices and statistics, '
      'positioned at the first element, forward; assign() from a state of the same type makes the target equal to the source whatever it '
      'held (also another number of charge states) and keeps its own position and direction. Source and copy share nothing: changing or '
      'propagating one never changes the other, and a copy propagates to exactly what the original would. assign() from a state of another simulation '
      'type is an error that leaves the target as it was.',
      ['inputs', 'histories'], 'all states of all three simulation types and all later uses of both',
      'tests clone one state and compare one array; a forgotten member or shared storage is not visible there',
      ['src/moment.cpp', 'src/linear.cpp', 'src/base.cpp'], [('MomentState copy constructor and assign', 'src/moment.cpp'), ('VectorState/MatrixState clone and assign', 'src/linear.cpp'), ('StateBase::assign', 'src/base.cpp')],
      'field-by-field equality, frame and no-aliasing of clone/assign proved for the three state types', observe=['state arrays']),
    P('P07', 'State parameters are introspected completely and address the state itself',
      'Enumerating a state\'s parameters yields each documented parameter exactly once with the right type, rank, dimensions and strides, and '
      'the storage it describes is the state\'s own: reading gives the current value of exactly that entry, writing changes exactly that '
      'entry, and no two entries share storage. After the last index the enumeration ends. This holds for any number of charge states.',
      ['inputs'], 'all parameters, all entries, any number of charge states, all three simulation types',
      'tests read a few named arrays for small states; a stride or pointer mix-up shows only for some shapes',
      ['src/moment.cpp', 'src/linear.cpp', 'src/base.cpp'], [('MomentState::getArray', 'src/moment.cpp'), ('VectorState/MatrixState::getArray', 'src/linear.cpp'), ('StateBase::getArray', 'src/base.cpp')],
      'every index of getArray proved to describe a distinct documented member with exact address, dimensions and strides', observe=['getArray']),
    P('P08', 'Vector and TransferMatrix simulations apply the linear optics of the lattice',
      'In the Vector and TransferMatrix simulations each element (marker, drift, sector bend, quadrupole, solenoid, generic matrix) multiplies the '
      'state from the left by its documented 6x6 matrix for any parameter value and sign and adds its length to the path length; the source '
      'sets the state to its "initial" values (missing entries: zero vector / identity) at path length zero. Too many values or a missing '
      'required parameter is an error. Repeating the propagation gives the same result.',
      ['inputs', 'configurations'], 'all parameter values, all states', 'tests check a handful of drifts and one quadrupole',
      ['src/linear.cpp'], [('element constructors', 'src/linear.cpp'), ('LinearElementBase::advance', 'src/flame/linear.h')],
      'every matrix entry of every constructor and the product in advance proved for all inputs over the reals, generic matrix for every length',
      observe=['state', 'pos']),
    P('P09', 'Propagation visits exactly the requested elements, in order',
      'propagate(state, start, max) executes elements start, start+1, ... (or start, start-1, ... for a negative max), each exactly once, and stops after '
      '|max| elements or at the end of the line, whichever comes first; start beyond the end or max = 0 executes nothing. Each element sees '
      'the direction and the index of the next element; the observer attached to an element is called once, right after that element, '
      'with that element and the updated state; afterwards the state records the next element and direction. An exception from an element or observer '
      'stops the propagation there. Hence a propagation done in consecutive pieces (or element by element) equals the one done in one go.',
      ['inputs', 'histories', 'configurations'], 'all lines, all start indices and counts, all placements of observers, all failing elements',
      'tests run from the first element to the end, with few start/count combinations and no failing elements',
      ['src/base.cpp', 'src/flame/base.h'], [('Machine::propagate', 'src/base.cpp')],
      'the loop of propagate cut at its header: initiation, consecution and exit proved for every line, start, count and direction; |max| = 2^31 excluded',
      observe=['next_elem', 'observers', 'trace'], state=[('next_elem', 'index of the element to be executed next', 'src/flame/base.h')]),
    P('P10', 'Reconfiguring an element equals building the machine with that element',
      'After reconfigure(i, conf) the machine behaves exactly as one constructed with conf for element i and everything else unchanged, '
      'whatever was propagated before: nothing computed from the old configuration (transfer matrices, cached results, lengths, misalignments, initial '
      'states, cavity data) survives, the element keeps its index and its observer, its configuration is the new one, and lookup by name '
      'follows a changed name. A rejected change (index out of range, unknown or different element type, missing parameter) raises an '
      'error and leaves the machine as it was.',
      ['inputs', 'histories', 'configurations'], 'all element types of the three simulation types, all configurations and earlier uses',
      'tests reconfigure one or two element types once; a member forgotten in one of 29 assign functions is not seen',
      ['src/flame/base.h', 'src/base.cpp', 'src/moment.cpp', 'src/linear.cpp', 'src/flame/rf_cavity.h', 'src/flame/chg_stripper.h'],
      [('element_builder_impl<E>::rebuild, E::assign', 'src/flame/base.h'), ('Machine::reconfigure', 'src/base.cpp')],
      'member-by-member equality with a freshly constructed element proved for the rebuild of all 29 element classes, rejection and exception cases included; constructors of the moment elements under contract',
      observe=['state arrays', 'element name, index, length, conf']),
    P('P11', 'The charge stripper recombines the beam and re-populates it',
      'Passing a charge stripper replaces all charge states by those of IonChargeStates, populated with NCharge (charge_model "off") or with the Baron charge distribution '
      'at the incoming velocity (default); each new charge state has the charge-weighted mean phase, the charge-weighted mean energy after the foil energy loss, the '
      'ensemble centroid, and the ensemble covariance with the momentum spreads increased by straggling (correlations scaled accordingly); the reference gets the '
      'stripped charge and its own energy loss; path length and sampling frequency stay. It depends only on the incoming beam and the configuration. Missing, '
      'unknown or inconsistent parameters, and backward propagation, are errors that leave particles and moments as they were.',
      ['inputs', 'configurations'], 'all beams, any number of charge states before and after, all parameter values and defaults',
      'one stored lattice uses one parameter set', ['src/chg_stripper.cpp', 'src/flame/chg_stripper.h'],
      [('Stripper_GetMat, ChargeStripper, StripperCharge, Stripper_Propagate_ref, advance', 'src/chg_stripper.cpp')],
      'all functions of the stripper proved for any number of charge states (loops summarised by induction), every charge model and default',
      observe=['state arrays']),
    P('P12', 'An RF cavity accelerates and focuses each charge state by its field model',
      'An RF cavity integrates the on-axis field step by step for the reference particle, starting from the driven phase which the synchronous-phase model '
      '(syncflag) and the parameter phi assign to its cavity type, and for every charge state with its own charge, energy and phase and the same driven phase; '
      'the gained energy and phase are those of the integration (scaled by scl_fac). Each charge state is transported by the product of drifts, '
      'accelerating gaps and multipole kicks of the cavity lattice (MpoleLevel selects which multipoles act), with the transit-time factors '
      'of its velocity (fits within their range, field integration outside or when forced), scaled by the frequency ratio to the sampling phase, in the misaligned frame; '
      'afterwards its centroid phase and energy are its differences from the reference. EmitGrowth adds the documented growth. Path length grows by L, the '
      'driven phase is reported. The result depends only on incoming state, configuration and data files, not on earlier uses; going backward right after '
      'forward restores the state before (without EmitGrowth); other backward passes, unknown cavity types and malformed or missing cavity data are errors.',
      ['inputs', 'histories', 'configurations'], 'all beams, all parameter values and option switches, built-in and user-supplied cavity data, every history of earlier passes',
      'tests compare two lattices with stored numbers; most cavity types, options, out-of-range fits and malformed data never occur',
      ['src/rf_cavity.cpp', 'src/flame/rf_cavity.h'],
      [('PropagateLongRFCav, GetCavBoost', 'src/rf_cavity.cpp'), ('GetCavMat, GenCavMat2, TransFacts, TransitFacMultipole, calTransfac', 'src/rf_cavity.cpp'), ('advance, recompute_matrix', 'src/flame/rf_cavity.h')],
      'transit-time factor selection and all fit tables, gap model, field integration loop and fit polynomials proved for all inputs and any table length; '
      'lattice matrix product, data loading and the remaining functions are bounded run-time contract checks against an independent implementation',
      observe=['state arrays', 'last_caviphi0']),
    P('P13', 'A Config is a two-level scope of typed parameters; copies never interfere',
      'A Config maps names to typed values (number, vector, text, list of Configs). A lookup sees the inner scope first, then the enclosing one; '
      'a typed get returns the value exactly when the innermost entry exists and has that type, otherwise it is an error (get), the given default (get with '
      'default) or leaves the output alone and returns false (tryGet). Setting (set, swap) changes that one entry of the inner scope only. new_scope gives an empty inner scope over all visible '
      'entries, push_scope and flatten move the visible entries to the outer / inner scope. Copies, assignments and scopes derived from a Config are values: '
      'no later change of one Config is ever visible through another, although they share storage until one is written.',
      ['inputs', 'histories'], 'all names, values and types, all histories of copies, scopes and writes',
      'tests write one copy and read one name; sharing bugs need a particular history of copies and writes',
      ['src/config.cpp', 'src/flame/config.h'], [('Config copy-on-write (_cow), getAny/tryGetAny/setAny/swapAny, new_scope/push_scope/flatten', 'src/config.cpp'), ('Config::get/tryGet/set/swap<T>', 'src/flame/config.h')],
      'every member function proved against finite-map contracts, with the ownership discipline (a shared map is modified only by its sole owner, exact owner counts) as proof obligations at each write',
      observe=['Config parameters'], state=[('values, implicit_values', 'the two scopes, shared by reference count', 'src/flame/config.h')]),
    P('P14', 'A lattice file means its variables, elements and beamlines as documented',
      'Parsing a lattice gives: global variables with the value of their expression (numbers, strings, vectors; usual precedence, associativity and functions; '
      'a name is defined before it is used and only once); per element its type, name and properties evaluated in order, each visible over the globals; '
      'beamlines as flat element sequences (nested lines expand, -line reverses, n*line and line*n repeat trunc(n) times; a negative, NaN or out-of-range factor is an error). '
      'The elements of the machine are those of the line named by USE, else of the last line, in order, each occurrence with its element\'s configuration. '
      'parse(), file() and dir() take paths relative to the lattice. Every syntax error, unknown name, redefinition, wrong operand type, division by zero, missing or empty line '
      'is an exception naming the line, never a partial result. setVar predefines globals. Printing a parsed configuration and parsing the text again gives the same configuration.',
      ['inputs', 'configurations'], 'all lattice texts: every nesting of expressions, lines and files, all operator and operand combinations',
      'tests parse a few small lattices', ['src/glps_parser.cpp', 'src/glps_ops.cpp', 'src/glps.y', 'src/glps.l', 'src/config.cpp'],
      [('parse_context operations', 'src/glps_ops.cpp'), ('glps_add_op, glps_assign, glps_add_element, glps_add_line, fill_context', 'src/glps_parser.cpp'), ('grammar and lexer', 'src/glps.y'), ('GLPSPrint', 'src/config.cpp')],
      'every numeric operation and the beamline algebra proved for all operands and any line length; grammar, symbol tables, files and printing by bounded run-time contract checks against an independent evaluator',
      observe=['Config parameters']),
    P('P15', 'A machine is built element by element from its configuration and indexed so',
      'Constructing a Machine from a configuration builds, for the registered simulation type, exactly one element per entry of "elements", in '
      'order, with the builder registered for its type, from its own configuration, and numbers it by its position. Lookup by name, by type and over all elements finds '
      'exactly the elements with that name / type, in line order (the n-th of a name for find(name, n); NULL when there are not that many). A missing or '
      'unregistered simulation or element type, a missing parameter or a failing element is an error that names the cause (key_error for missing '
      'parameters, runtime_error for other failures of an element), never a partial machine, and leaves the registry usable. Registering a type '
      'adds exactly that type, a duplicate is refused.',
      ['inputs', 'configurations', 'histories'], 'all configurations: any number of elements, repeated and absent names, any failing element; all registrations',
      'tests look up a few names in one lattice', ['src/base.cpp', 'src/flame/base.h'],
      [('Machine::Machine, p_registerState, p_registerElement', 'src/base.cpp'), ('find, equal_range, equal_range_type, all_range, LookupKey', 'src/flame/base.h')],
      'element loop of the constructor and search loop of find cut at their headers and proved for any number of elements; lock balance on every exit; '
      'lookup tables are finite maps / sorted sequences (assumed contracts of std::map, ordered by the proved LookupKey order)',
      observe=['elements', 'lookup results'], state=[('p_lookup, p_lookup_type', 'name and type index of the line', 'src/flame/base.h')]),
    P('P16', 'A sextupole is the feed-down matrix about the current beam, slice by slice',
      'A sextupole of length L and strength B3 is applied in `step` equal slices; each slice is the linear (thin- or thick-lens) sextupole '
      'matrix about the current centroid of that charge state with its own rigidity, including the kick from the second moments when dstkick '
      'is on, and the drift phase slip of the slice. The reported transfer matrix is the product of the slices in the laboratory frame. Path length '
      'and phases advance as for any element of that length. Backward propagation through a sextupole is an error.',
      ['inputs', 'configurations'], 'all parameters and states, any number of slices', 'one stored lattice uses one parameter set',
      ['src/moment.cpp', 'src/moment_sup.cpp'], [('ElementSext::advance', 'src/moment.cpp'), ('GetSextMatrix', 'src/moment_sup.cpp')],
      'GetSextMatrix proved entry by entry (thick lens: modulo the listed finding); ElementSext::advance with both loops (charge states, slices) cut at their headers: entry values, one arbitrary slice, exit',
      observe=['moment0', 'moment1', 'transmat']),
    P('P17', 'The initial beam state is what the configuration says',
      'A moment state made by a source element or by allocState() has one charge state per entry of IonChargeStates (or just the one selected by cstate), each with '
      'its own charge IonChargeStates[k] and population NCharge[k], the centroid and covariance vectors named by vector_variable / matrix_variable plus the '
      'charge-state number, the reference energy plus the energy offset of its centroid, the phase of its centroid, consistent kinematics, and unit '
      'transfer matrix; the reference takes IonZ, IonQ, IonEs, IonEk, SampleFreq with the documented defaults; path length zero, statistics computed. Without IonChargeStates there is one state from '
      'the unnumbered (optional) vectors. Inconsistent or missing charge-state data (lengths, sizes, cstate out of range) is an error. A source replaces '
      'the state by this one when passed forward and does nothing backward.',
      ['inputs', 'configurations'], 'all configurations: any number of charge states, all combinations of optional parameters',
      'tests use a few complete source definitions', ['src/moment.cpp'],
      [('MomentState::MomentState(Config), load_storage', 'src/moment.cpp'), ('ElementSource::advance', 'src/moment.cpp')],
      'constructor proved for every combination of options and, by cutting the loop over charge states at its header, for any number of charge states; load_storage under its own contract',
      observe=['state arrays']),
]

NOT = [
    P('P18', 'The Python bindings expose the library without changing its meaning',
      'Configurations passed from Python become the same parameters as the equivalent lattice text and read back unchanged; state parameters read, '
      'written and iterated from Python are those of the underlying state; errors become the documented Python exceptions, and no object is leaked or freed while in use.',
      ['inputs', 'histories'], 'all Python values and call histories', 'tests use a few values',
      ['python/flame/modconfig.cpp', 'python/flame/modmachine.cpp', 'python/flame/modstate.cpp'], [('conversion functions', 'python/flame/modconfig.cpp')],
      'every statement of the binding code is a CPython / NumPy C-API call with reference-count protocol; no contracts of that API exist here, and assuming one '
      'by hand for some 80 functions and macros would prove the assumed text, not the code; the library side of each binding is P06, P07, P09, P10, P13, P15'),
    P('P19', 'HDF5 output and input files hold exactly the recorded state values',
      'Writing a state or a sequence of states to a file and reading the datasets back gives the same values, shapes and element indices, for every state '
      'type and any number of recorded states.',
      ['inputs', 'fault_sequences'], 'all states, all numbers of records', 'tests write one file',
      ['src/h5writer.cpp', 'src/h5loader.cpp'], [('H5StateWriter', 'src/h5writer.cpp')],
      'the effect is entirely inside libhdf5 (dataspaces, hyperslabs, file contents), for which no contract exists within reach; the arrays handed to it are P07'),
    P('P20', 'Independent machines can be used from different threads',
      'Two threads which build, propagate and destroy different machines never influence each other\'s results, and the shared registry and data caches stay consistent under every interleaving.',
      ['schedules'], 'all interleavings of calls on different machines', 'tests are single threaded',
      ['src/base.cpp', 'src/util.cpp', 'src/rf_cavity.cpp'], [('registry mutex', 'src/base.cpp'), ('numeric_table_cache', 'src/util.cpp')],
      'the verification conditions are sequential; deciding interleavings needs a concurrent separation logic or a race detector, another technique; the lock balance on every exit of the registry functions is part of P15'),
    P('P21', 'Results are accurate to floating-point rounding',
      'Every reported value differs from the exact result of the model by a rounding error proportional to machine precision and the condition of the element, for all parameters in physical range.',
      ['inputs'], 'all parameters and states', 'tests compare with tolerance 1e-6 and larger',
      ['src/moment.cpp', 'src/rf_cavity.cpp'], [('all numeric code', 'src/moment_sup.cpp')],
      'the prover treats doubles as real numbers; no prover for floating-point error bounds over transcendental functions and matrix products is installed'),
    P('P22', 'The command line tool reports the propagated states it was asked for',
      'Running the tool on a lattice propagates it once and prints or writes, in the selected format, the states of the selected elements; a failure gives a message and a non-zero exit status.',
      ['inputs', 'fault_sequences'], 'all command lines and lattices', 'tests run it on three lattices',
      ['tools/cli.cpp'], [('main', 'tools/cli.cpp')],
      'the tool is a sequence of boost::program_options, iostream and HDF5 calls; its observable behaviour is the text those libraries produce, for which there are no contracts; the library calls it makes are P09, P14, P15'),
]


if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('note', 'level')}) + '\n')
        for p in NOT:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('note', 'level')}) + '\n')
    man = {'version': 1, 'setup_cmd': 'true',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo/src unchanged', 'source_commits': []},
           'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': TECH, 'level': p['level'], 'level_note': p['note']} for p in PROPS],
           'not_applicable': [{'property': p['id'], 'reason': p['note']} for p in NOT]}
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
