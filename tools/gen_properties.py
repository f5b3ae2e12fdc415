"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed=hook)))

SIM = 'projectq/backends/_sim/'
CE = 'projectq/cengines/'
META = 'projectq/meta/'
DEC = 'projectq/setups/decompositions/'

p('C01', 'The C++ simulator evolves exactly the state the circuit describes',
  'After any sequence of allocations, supported gates (1 to 5 target qubits, any number of positive or negative controls) and deallocations, '
  'the C++ simulator holds exactly the state vector that ideal linear algebra assigns to that sequence, attributed to the right qubits, up to rounding. '
  'Gate fusion, the flush points, the order of allocation and deallocation, the kernel variant and the number of threads never change that state.',
  ['programs', 'configurations'], 'all gate sequences, qubit orders, control sets, fusion settings, flush placements, kernel variants',
  'The tests apply a handful of fixed circuits and gates of one width at a time; the state of the fusion buffer, qubit-position map and kernels after an arbitrary history is never compared with an independent model.',
  [SIM + '_cppkernels/simulator.hpp', SIM + '_cppkernels/fusion.hpp', SIM + '_cppkernels/intrin/*.hpp', SIM + '_cppkernels/nointrin/*.hpp', SIM + '_cppsim.cpp', SIM + '_simulator.py'],
  [('gate fusion buffer', SIM + '_cppkernels/fusion.hpp'), ('k-qubit kernels', SIM + '_cppkernels'), ('qubit id to bit position map', SIM + '_cppkernels/simulator.hpp')],
  ['Simulator.cheat()', 'Simulator.get_amplitude()'],
  [('map_', 'logical id to bit position', SIM + '_cppkernels/simulator.hpp'), ('vec_', 'state vector', SIM + '_cppkernels/simulator.hpp')])

p('C02', 'The Python simulator evolves exactly the state the circuit describes',
  'After any sequence of allocations, gates (any number of targets, positive or negative controls), emulated operations and deallocations, the pure-Python simulator holds the state vector ideal linear algebra assigns to it, attributed to the right qubits. '
  'It agrees with the C++ simulator on every program both accept.',
  ['programs'], 'all programs, on both simulator implementations',
  'The tests run the two implementations through the same small fixed circuits; equivalence and correctness after arbitrary histories are never compared.',
  [SIM + '_pysim.py', SIM + '_simulator.py'], [('state update routines', SIM + '_pysim.py')], ['Simulator.cheat()'])

p('C03', 'Measurement obeys the Born rule, collapses, repeats and is reproducible',
  'Measuring any set of qubits of any state returns an outcome of non-zero probability with Born-rule frequencies, leaves the normalised projected state (entangled partners included), repeats on remeasurement, and reports each outcome to the measured qubit. '
  'A qubit is deallocated only if it is in a classical state: in superposition or entangled it is refused with an error and the state is left intact. '
  'Simulators created with the same seed give the same outcomes for the same program.',
  ['programs', 'inputs'], 'all states, all subsets and orders of measured qubits, all seeds',
  'Tests measure a few product or Bell states; outcome-conditional states, rare outcomes and joint distributions over arbitrary entangled states are not examined.',
  [SIM + '_cppkernels/simulator.hpp', SIM + '_pysim.py', SIM + '_simulator.py'],
  [('measure_qubits', SIM + '_cppkernels/simulator.hpp'), ('deallocate_qubit / is_classical', SIM + '_pysim.py')], ['int(qubit)', 'cheat()', 'get_probability()'])

p('C04', 'Simulator queries and state edits agree with the state and reject bad input',
  'Probabilities, amplitudes, expectation values, operator application, time evolution, collapse and direct state setting return or produce what the current state vector dictates, for any qubit order and register subset, and the read-only ones leave the state unchanged. '
  'Invalid requests (unknown or unallocated qubits, repeated qubits, bit strings that are too short, vectors of the wrong length, impossible collapse) raise an error instead of returning or storing a wrong state.',
  ['inputs', 'histories'], 'all states, qubit subsets/orders, operators and invalid arguments on both simulators',
  'Tests query small fixed states with valid arguments; interleaving queries with pending fused gates and malformed requests is barely sampled.',
  [SIM + '_simulator.py', SIM + '_cppkernels/simulator.hpp', SIM + '_pysim.py'],
  [('query methods', SIM + '_simulator.py'), ('argument checks', SIM + '_simulator.py')], ['get_probability', 'get_amplitude', 'get_expectation_value', 'apply_qubit_operator', 'collapse_wavefunction', 'set_wavefunction'])

p('C05', 'The native simulator never has memory errors or undefined behaviour',
  'No sequence of calls to the native simulator, valid or malformed (unknown or repeated ids, wrong-length strings and vectors, any gate size, callbacks that fail or return bad data), reads or writes outside its memory, uses freed memory or executes undefined behaviour. '
  'Calls that cannot be executed end in a Python exception.',
  ['histories', 'inputs'], 'all call sequences to the native module',
  'The tests run an uninstrumented build and mostly valid calls; an out-of-bounds access that does not crash is invisible to them.',
  [SIM + '_cppsim.cpp', SIM + '_cppkernels/simulator.hpp', SIM + '_cppkernels/fusion.hpp', SIM + '_cppkernels/alignedallocator.hpp', SIM + '_cppkernels/intrin/*.hpp', SIM + '_cppkernels/nointrin/*.hpp'],
  [('argument validation and aligned state buffers', SIM + '_cppkernels')], ['ASan/UBSan reports', 'process exit status'])

p('C06', 'Parallel simulation is race-free and independent of the thread count',
  'The parallel kernels never access the same memory from two threads without synchronisation, and independent simulators used from different threads do not influence one another. '
  'The result of a program is the same for every number of threads.',
  ['schedules', 'configurations'], 'all thread schedules and thread counts',
  'The tests run with one OpenMP thread and one simulator at a time.',
  [SIM + '_cppkernels/simulator.hpp', SIM + '_cppkernels/intrin/*.hpp', SIM + '_cppkernels/nointrin/*.hpp', SIM + '_cppsim.cpp'],
  [('OpenMP loops over disjoint index sets', SIM + '_cppkernels'), ('scratch buffers', SIM + '_cppkernels/simulator.hpp'), ('GIL release', SIM + '_cppsim.cpp')], ['TSan reports', 'final states per thread count'])

p('C07', 'Emulated arithmetic maps every basis state to the exact integer result',
  'When a simulator executes an arithmetic gate directly (constant and quantum addition, subtraction, modular addition and multiplication, comparison, division, user-defined classical functions), every basis state in a superposition (of the documented domain: operands below the modulus for modular gates) is sent to the state the integer function defines, with the amplitudes moved unchanged, on all register widths and under controls. '
  'The native and the Python simulators give the same result.',
  ['inputs'], 'all constants, moduli, register widths, qubit orders, control sets and superpositions',
  'Tests use a few small constants on narrow registers in basis states.',
  [SIM + '_cppkernels/simulator.hpp', SIM + '_simulator.py', SIM + '_pysim.py', 'projectq/libs/math/_gates.py', 'projectq/ops/_basics.py'],
  [('emulate_math and specialised emulation', SIM + '_cppkernels/simulator.hpp'), ('get_math_function', 'projectq/libs/math/_gates.py')], ['cheat()'])

p('C08', 'Gate inverse, merge, identity and equality agree with the operators',
  'For every gate, the inverse acts as the inverse operator, merging two gates acts as applying both, a gate reported as identity acts as the identity, and gates that compare equal act identically (and hash equally when hashable). '
  'Operations that cannot be provided raise an error rather than return a wrong gate, and angles are periodic exactly as far as the operator is; after a gate has been given a new matrix all of this refers to the new one.',
  ['inputs'], 'all gates, gate pairs and parameters, including large, tiny and negative angles, and nested inverses',
  'Tests compare a few named gates; pairwise laws over the whole gate population and parameter range are not covered.',
  ['projectq/ops/_basics.py', 'projectq/ops/_gates.py', 'projectq/ops/_metagates.py', 'projectq/ops/_time_evolution.py', 'projectq/ops/_qubit_operator.py', 'projectq/ops/_uniformly_controlled_rotation.py', 'projectq/ops/_qpegate.py', 'projectq/ops/_qaagate.py', 'projectq/ops/_state_prep.py', 'projectq/libs/math/_gates.py'],
  [('get_inverse/get_merged/is_identity/__eq__/__hash__', 'projectq/ops')], ['gate objects'])

p('C09', 'Commands keep gate, qubits, control states and tags through every operation',
  'A command means its gate on its target qubits, conditioned on each control qubit having its own requested value; copying, inverting, merging, reordering interchangeable qubits, adding controls, comparing, printing and passing through the compiler never change that meaning; commands which replace another one carry its tags, belong to the main engine and come in its place. '
  'Two commands compare equal only if they mean the same, and a command whose merge or inverse is unavailable says so with an error.',
  ['inputs', 'histories'], 'all commands (gates, control sets, control states, tags, interchangeable qubits) and compositions of command operations',
  'Tests check single operations on simple positively controlled commands.',
  ['projectq/ops/_command.py', 'projectq/ops/_basics.py', 'projectq/meta/_control.py', DEC + 'controlstate.py'],
  [('control_state', 'projectq/ops/_command.py'), ('interchangeable qubit normalisation', 'projectq/ops/_command.py')], ['Command attributes', 'backend stream'])

p('C10', 'The local optimizer never changes what a program computes',
  'For any program and any cache size, the commands leaving the local optimizer implement the same operation, with the same measurements in the same dependency order on the same qubits, as the commands that entered it. '
  'Nothing is lost: after a flush (and at the end of the program) everything it held back has been sent on, in an order that respects each qubit.',
  ['programs', 'configurations'], 'all command streams, cache sizes and flush placements',
  'Tests feed a few short sequences and look at specific cancellations.',
  [CE + '_optimize.py', 'projectq/ops/_command.py'], [('per-qubit command lists, cancellation and merging', CE + '_optimize.py')], ['stream before and after the engine'],
  [('_l', 'cached commands per qubit', CE + '_optimize.py')])

p('C11', 'Every decomposition rule implements the gate it replaces',
  'For every registered decomposition rule and every command it recognises, the replacement commands implement the same operation on the same qubits, up to a global phase that no control could observe, with every helper qubit returned to its initial state and released, and each registered rule is found and applied to the commands it is for. '
  'Applied to a command with (further) control qubits, the controls are respected (controls on value 0 after the control-state rule has rewritten them).',
  ['inputs'], 'all rules, all recognised gates, parameters, register widths and control sets',
  'Rule tests use a few parameter values and basis states, often only uncontrolled.',
  [DEC + '*.py', 'projectq/libs/math/_default_rules.py', 'projectq/libs/math/_constantmath.py', 'projectq/libs/math/_quantummath.py'],
  [('DecompositionRule recognise/decompose', DEC)], ['commands produced by the rule'])

p('C12', 'Compiling to a target gate set preserves the program and emits only that set',
  'For any program and any supported compiler setup, what reaches the backend consists only of commands the configured filters and the backend allow, and computes the same result as the original program. '
  'Compilation of one command never changes how later commands are compiled, repeated compilations of the same program give the same output, engine lists asked for separately share no engines, and a command that cannot be decomposed is reported with an error instead of being dropped or passed on.',
  ['programs', 'configurations'], 'all programs, setups and gate sets',
  'Setup tests check a few gates per setup for membership in the gate set and rarely simulate the outcome.',
  [CE + '_replacer/_replacer.py', CE + '_replacer/_decomposition_rule_set.py', CE + '_replacer/_decomposition_rule.py', 'projectq/setups/*.py', CE + '_main.py'],
  [('rule search and recursive replacement', CE + '_replacer/_replacer.py'), ('filters', 'projectq/setups/_utils.py')], ['backend stream'])

p('C13', 'Qubit mappers produce hardware-conforming, equivalent circuits',
  'Whatever the program, after mapping every two-qubit gate acts on physically adjacent qubits (and in an allowed direction where the chip demands one), each physical location holds at most one logical qubit, and the mapped circuit computes the same as the original one with the reported mapping. '
  'Every command is sent exactly once, in an order that respects each qubit, and nothing is left behind after a flush; of the swap sequences the grid mapper considers it sends a cheapest one by the cost function it was given.',
  ['programs', 'configurations'], 'all programs within the device size, all chain/grid/chip shapes and storage sizes, re-use of freed locations',
  'Mapper tests use short hand-written sequences and check parts of the internal state.',
  [CE + '_linearmapper.py', CE + '_twodmapper.py', CE + '_ibm5qubitmapper.py', CE + '_manualmapper.py', CE + '_swapandcnotflipper.py', CE + '_basicmapper.py', 'projectq/backends/_ionq/_ionq_mapper.py'],
  [('mapping, swap routing, odd-even sorting', CE + '_linearmapper.py, _twodmapper.py'), ('CNOT flipping', CE + '_swapandcnotflipper.py')], ['stream after the mapper', 'mapper.current_mapping'])

p('C14', 'Control, Compute/Uncompute, Dagger and Loop mean what they say',
  'Code inside Control is executed exactly when the controls have the requested values, Uncompute undoes its Compute block, Dagger executes the inverse of its body, and Loop repeats its body the requested number of times, in every nesting and whether or not later engines support the construct natively. '
  'Local qubits created and released inside the blocks are handled once per execution and end clean, and blocks left by an exception or misuse (local qubit leaking, double uncompute, negative loop count) raise an error.',
  ['programs'], 'all nestings of the meta constructs, bodies, control states and local qubit uses, with and without loop-tag support downstream',
  'Tests examine single constructs, mostly by looking at tags of a few commands; nestings with ancillas and negative controls are not executed.',
  [META + '_control.py', META + '_compute.py', META + '_dagger.py', META + '_loop.py', META + '_util.py'],
  [('inserted meta engines', META), ('ancilla replay in Uncompute and Loop', META + '_compute.py, _loop.py')], ['backend stream', 'final state'])

p('C15', 'Every qubit is allocated once, used only while live, and released once',
  'In the stream that reaches the backend, every qubit id is allocated before use, never reused while live, used only between its allocation and its deallocation, and deallocated exactly once; no command acts twice on one qubit. '
  'Whatever the program does (explicit deletion, scope exit, ancillas of rules and meta blocks, dirty qubits, garbage left to the end), a final flush leaves no qubit allocated and no command unsent.',
  ['programs', 'histories'], 'all programs, engine lists and ways of ending the life of a qubit',
  'Tests check that particular commands appear for particular programs; conservation over whole executions is not checked.',
  ['projectq/types/_qubit.py', CE + '_basics.py', CE + '_main.py', META + '_compute.py', META + '_loop.py', META + '_dirtyqubit.py', 'projectq/ops/_basics.py'],
  [('active qubit registry and deallocation on garbage collection', CE + '_main.py, projectq/types/_qubit.py')], ['backend stream', 'main engine qubit sets'])

p('C16', 'Measurement results reach exactly the right qubit, through any compiler',
  'Reading a qubit after measurement and flush yields the outcome the backend produced for that very qubit, whatever engines, mappers, swaps, re-measurements or re-used physical locations lie in between; reading an unmeasured qubit raises an error. '
  'Outcomes of other qubits are never affected.',
  ['programs', 'configurations'], 'all programs with mid-circuit measurement and feedback, on all mappers and setups',
  'Tests measure a few qubits with the identity mapping or one fixed remapping.',
  [CE + '_main.py', CE + '_basicmapper.py', CE + '_linearmapper.py', CE + '_twodmapper.py', CE + '_manualmapper.py', 'projectq/types/_qubit.py', META + '_logicalqubit.py'],
  [('LogicalQubitIDTag and measurement registry', CE + '_basicmapper.py, _main.py')], ['int(qubit) vs backend log'])

p('C17', 'Resource counts equal what was actually sent through the counter',
  'At any time the gate counts, gate-class counts, maximum circuit width, depth and logical-qubit bookkeeping of the resource counter equal those recomputed from the stream of commands it received, and it forwards that stream unchanged. '
  'Every gate can be counted, and the textual report agrees with the counts.',
  ['programs'], 'all command streams, including re-use of qubit ids and all gate types',
  'Tests count one small program.',
  ['projectq/backends/_resource.py'], [('counting and depth update', 'projectq/backends/_resource.py')], ['gate_counts', 'gate_class_counts', 'max_width', 'depth_of_dag'])

p('C18', 'Observing and filtering engines pass the program on unaltered',
  'Printing, drawing, counting, tag removal, filtering, comparing and forwarding engines pass every command on exactly once, in order, with gate, qubits, controls, control values and (except for the tags they are asked to remove) tags unchanged, and a command modifier applies its function exactly once per command. '
  'Availability questions are answered as the engine contract prescribes: by the filter, or by the rest of the chain.',
  ['programs', 'configurations'], 'all command streams and engine orders',
  'Tests pass single commands.',
  ['projectq/backends/_printer.py', 'projectq/backends/_circuits/_drawer.py', 'projectq/backends/_circuits/_drawer_matplotlib.py', 'projectq/backends/_resource.py', CE + '_tagremover.py', CE + '_cmdmodifier.py', CE + '_replacer/_replacer.py', CE + '_basics.py', CE + '_testengine.py'],
  [('receive/send', CE + '_basics.py')], ['streams before and after each engine', 'printed text'])

p('C19', 'Qubit operator algebra equals matrix algebra',
  'Sums, differences, products, scalar multiples, negation, division, in-place forms and compression of qubit operators represent exactly the corresponding matrices; comparison tells equal operators from different ones within its documented tolerance; and operations do not modify their operands unless they are in-place. '
  'Malformed terms, coefficients and operand types are rejected.',
  ['inputs'], 'all operators, coefficients and term spellings (tuples or strings, any order of factors, a qubit named twice)',
  'Tests use hand-picked one- and two-term operators.',
  ['projectq/ops/_qubit_operator.py'], [('term arithmetic and Pauli product table', 'projectq/ops/_qubit_operator.py')], ['operator objects'])

p('C20', 'Time evolution applies exp(-iHt) exactly',
  'Applying a time-evolution gate of any Hamiltonian with real coefficients and any real time, on any register order and under controls, acts as exp(-iHt), both emulated by a simulator and after decomposition when the terms commute; Hamiltonians whose terms do not commute (beyond rounding) are not decomposed inexactly. '
  'Merging and inverting time evolutions yields the evolution for the combined or reversed time, and invalid Hamiltonians or times are rejected.',
  ['inputs'], 'all Hamiltonians (identity terms included), times, register orders, control sets',
  'Tests use a few fixed Hamiltonians.',
  ['projectq/ops/_time_evolution.py', DEC + 'time_evolution.py', DEC + 'qubitop2onequbit.py', SIM + '_cppkernels/simulator.hpp', SIM + '_pysim.py'],
  [('emulate_time_evolution', SIM), ('decomposition', DEC + 'time_evolution.py')], ['cheat()', 'commands'])

p('C21', 'State preparation and multiplexed rotations reach the exact target',
  'State preparation of any normalised complex vector on a register in |0...0> yields exactly that state (up to global phase), and uniformly controlled rotations apply to the target the rotation selected by the value of the control register, for every register width and additional controls; arbitrary one-qubit unitaries and their controlled versions are decomposed to that unitary. '
  'Inputs of the wrong length, not normalised or not unitary are rejected.',
  ['inputs'], 'all target vectors (sparse, complex, with zeros, negative or tiny entries), angle lists, widths, 2x2 unitaries (near-diagonal and near-antidiagonal included)',
  'Tests prepare a few random vectors and a short list of unitaries; boundary matrices are not sampled.',
  ['projectq/ops/_state_prep.py', 'projectq/ops/_uniformly_controlled_rotation.py', DEC + 'stateprep2cnot.py', DEC + 'uniformlycontrolledr2cnot.py', DEC + 'arb1qubit2rzandry.py', DEC + 'carb1qubit2cnotrzandry.py'],
  [('angle recursion', DEC + 'uniformlycontrolledr2cnot.py, stateprep2cnot.py'), ('Euler angles', DEC + 'arb1qubit2rzandry.py')], ['commands', 'final state'])

p('C22', 'Hardware backends submit the circuit given and map results back',
  'For every circuit a hardware backend accepts, the job it submits describes exactly that circuit on the mapped physical qubits (gates, angles, controls, order, measured qubits), and the returned counts or probabilities are reported for the right logical qubits in the order the user asks for. '
  'The measured values read back are one of the returned outcomes, drawn with the returned frequencies, and commands the service cannot express (negative controls, unsupported gates, unsupported use after measurement) are declared unavailable or raise an error; a job the service reports as failed ends with an error at once.',
  ['programs', 'fault_sequences'], 'all accepted circuits, qubit mappings, result distributions and server replies (queued, failed, malformed, time-outs)',
  'Tests replay one recorded conversation with a fixed circuit.',
  ['projectq/backends/_ibm/_ibm.py', 'projectq/backends/_aqt/_aqt.py', 'projectq/backends/_ionq/_ionq.py', 'projectq/backends/_ionq/_ionq_mapper.py', 'projectq/backends/_awsbraket/_awsbraket.py', 'projectq/backends/_azure/_azure_quantum.py', 'projectq/backends/_azure/_utils.py', 'projectq/backends/_utils.py'],
  [('_store translation, _run result mapping', 'projectq/backends')], ['submitted job', 'get_probabilities', 'int(qubit)'])

p('C23', 'Circuit drawings show every gate once, on its wires, in causal order',
  'The LaTeX and matplotlib drawings of any circuit contain each drawn command exactly once, on the wires of its qubits, with the per-wire order of the program and no two gates on top of each other; a wire is drawn as classical exactly where its qubit is known to be; and drawing neither changes nor consumes the recorded circuit. '
  'The generated LaTeX is self-consistent: every node that is connected is defined once, and nothing is left unexpanded.',
  ['programs', 'configurations'], 'all circuits, gate types, control sets, wire permutations and drawing options',
  'Tests look for substrings in drawings of one or two circuits.',
  ['projectq/backends/_circuits/_drawer.py', 'projectq/backends/_circuits/_to_latex.py', 'projectq/backends/_circuits/_drawer_matplotlib.py', 'projectq/backends/_circuits/_plot.py'],
  [('per-wire item lists and recursive emission', 'projectq/backends/_circuits/_to_latex.py')], ['get_latex()', 'draw()'])

p('C24', 'The unitary simulator reports the circuit\'s exact unitary history',
  'For any circuit of gates given by matrices, the unitary simulator reports the unitary of the whole circuit over its qubits (first allocated qubit least significant), with controls and target order respected, a new unitary starting after each measurement or deallocation, and reports final states and measurement results consistent with it. '
  'Qubits may be added at any time.',
  ['programs'], 'all circuits within memory, with measurements, later allocations and deallocations',
  'Tests run a few gates on up to four qubits in one order.',
  ['projectq/backends/_unitary.py'], [('_update_unitary / history', 'projectq/backends/_unitary.py')], ['unitary', 'history', 'measure_qubits'])

p('C25', 'The classical simulator computes bits exactly and refuses non-classical gates',
  'On any circuit of NOT (any controls) and arithmetic gates the classical simulator ends with exactly the bits that circuit defines, for any register width, and reading, writing and measuring registers agree with them. '
  'Commands it cannot execute faithfully (quantum gates, measurements with controls) are reported unavailable or raise an error.',
  ['programs'], 'all reversible classical circuits, register orders, qubit creation and deletion orders',
  'Tests use a few fixed registers.',
  [SIM + '_classical_simulator.py'], [('integer state with bit positions', SIM + '_classical_simulator.py')], ['read_bit/read_register', 'int(qubit)'])

p('C26', 'Oracle synthesis implements the given Boolean function or permutation',
  'Oracles built from a Boolean function, truth table or permutation act on the given qubits exactly as that function or permutation does, for every arity and every representation, and arguments that do not fit the function are rejected.',
  ['inputs'], 'all functions of few variables, all permutations of few bits, all supported representations',
  'Tests synthesise a handful of functions and check gate counts.',
  ['projectq/libs/revkit/_permutation.py', 'projectq/libs/revkit/_control_function.py', 'projectq/libs/revkit/_phase.py', 'projectq/libs/revkit/_utils.py'],
  [('truth table construction and synthesis calls', 'projectq/libs/revkit')], ['emitted commands'])

p('C27', 'Arithmetic circuits compute exact results and clean up after themselves',
  'The circuits that implement the arithmetic gates (constant, modular and register-register addition, subtraction, multiplication, comparison, division, and their inverses and controlled forms) compute the exact integer result on every basis state within their documented domain, agree with the emulated gates, and return every work qubit to its starting value. '
  'Arguments outside the domain are rejected.',
  ['inputs'], 'all operand values, widths and moduli in the documented domains, with and without controls, forward and inverse',
  'Tests check one or two operand combinations per gate.',
  ['projectq/libs/math/_constantmath.py', 'projectq/libs/math/_quantummath.py', 'projectq/libs/math/_default_rules.py', 'projectq/libs/math/_gates.py'],
  [('ripple-carry and Fourier-basis adders', 'projectq/libs/math')], ['classical execution of the emitted circuit'])

p('C28', 'Compiler instances are independent and deterministic',
  'What one engine, backend or program does never depends on other engines or programs that exist or ran before in the same process: the same program with the same seeds gives the same command stream and results every time, in any order and interleaving of instances. '
  'Creating or running an instance has no side effect on the program\'s own arguments or rule sets, and a seeded instance has none on the program\'s own global random state.',
  ['histories', 'configurations'], 'all interleavings of programs and instances in one process',
  'Every test builds fresh instances and looks at one of them.',
  [CE + '_main.py', CE + '_replacer/*.py', SIM + '_pysim.py', SIM + '_simulator.py', CE + '_twodmapper.py', 'projectq/setups/trapped_ion_decomposer.py'],
  [('per-instance state', 'projectq')], ['streams of interleaved instances'])

p('C29', 'Invalid programs are rejected with an error, never silently miscompiled',
  'Using one qubit twice in a gate, controlling a qubit by itself or with a malformed control state, combining qubits of different engines, using qubits after their release, a measurement command with control qubits, applying a gate to the wrong number of qubits or registers, or giving gate parameters outside of their documented domain raises an error; no command of the rejected statement reaches the backend or changes its state. '
  'An error raised inside of an engine or backend reaches the program as an error of that type. After such an error the engine still executes valid programs correctly.',
  ['programs', 'fault_sequences'], 'all malformed uses at any point of any program',
  'Tests trigger each error once in isolation, and several misuses are never tried.',
  ['projectq/ops/_command.py', 'projectq/ops/_basics.py', 'projectq/ops/_metagates.py', META + '_control.py', CE + '_main.py', SIM + '_simulator.py'],
  [('argument checks', 'projectq/ops')], ['exceptions', 'backend stream'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
