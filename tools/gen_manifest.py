"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('runtime monitor: lockstep of the C++ simulator with an independent state-vector model', 'Random and stress histories; every intermediate state compared amplitude by amplitude. Trusts numpy and the reference model.'),
 'C02': ('runtime monitor: lockstep of the Python simulator with an independent model and with the C++ simulator', 'Random histories; states compared after every few events.'),
 'C03': ('runtime monitor: outcome/collapse oracle in lockstep, sequential statistical test on outcome frequencies', 'Impossible outcomes and wrong collapses are exact; frequencies are tested at a false-alarm rate below 1e-9.'),
 'C04': ('runtime monitor: lockstep queries and state edits, malformed-call injection', 'Random states and requests on both simulators.'),
 'C05': ('AddressSanitizer and UndefinedBehaviorSanitizer builds of the native simulator under valid and hostile call sequences', 'Decides only the executions driven; sanitizer red zones may miss far out-of-bounds accesses.'),
 'C06': ('ThreadSanitizer build with an instrumented OpenMP runtime; cross-thread-count and concurrent-instance lockstep', 'Happens-before race detection on the executions driven.'),
 'C07': ('runtime monitor: emulated arithmetic against integer arithmetic on superpositions', 'Exact integer reference on every basis state of random sparse superpositions.'),
 'C08': ('runtime monitor: gate-algebra oracle on matrices of gates returned by inverse, merge, equality', 'Laws checked pairwise over a gate population with boundary parameters.'),
 'C09': ('runtime monitor: command-meaning oracle after every command operation', 'Random commands and operation sequences against an independent meaning.'),
 'C10': ('runtime monitor: stream equivalence oracle before and after the optimizer', 'Streams with keyed outcomes executed on the reference model.'),
 'C11': ('runtime monitor: operator equivalence of recorded replacement commands for every registered rule', 'All rules of the shipped modules, parameters and controls sampled.'),
 'C12': ('runtime monitor: gate-set and equivalence oracle at the backend of every setup', 'Random programs through all setups; filters judged by an independent reading of their documentation.'),
 'C13': ('runtime monitor: connectivity, exclusivity, order and equivalence oracle behind each mapper', 'Random programs and device shapes.'),
 'C14': ('runtime monitor: nested meta programs executed on a monitored backend against an interpreter', 'Random nestings with ancillas, negative controls, with and without loop-tag support.'),
 'C15': ('runtime monitor: online qubit-lifecycle automaton at the backend', 'All engine stacks; ways of ending a qubit drawn at random.'),
 'C16': ('runtime monitor: per-qubit outcome log against values read', 'Programs with feedback over all mappers.'),
 'C17': ('runtime monitor: independent recount of the recorded stream', 'Random streams.'),
 'C18': ('runtime monitor: before/after stream comparison around each engine', 'Random streams and engine orders.'),
 'C19': ('runtime monitor: operator algebra against matrix algebra', 'Random operators of up to four qubits.'),
 'C20': ('runtime monitor: time evolution against matrix exponentials', 'Random Hamiltonians on both simulators and after decomposition.'),
 'C21': ('runtime monitor: final states and emitted operators against targets', 'Random and boundary targets.'),
 'C22': ('runtime monitor: simulated services record the submitted job and inject replies and faults', 'Mock services speak the recorded protocols; no real service.'),
 'C23': ('runtime monitor: drawings parsed back and compared with the recorded stream', 'Own parser for the generated LaTeX; matplotlib calls recorded.'),
 'C24': ('runtime monitor: reported unitaries against an independently accumulated matrix', 'Random circuits of up to six qubits.'),
 'C25': ('runtime monitor: lockstep with an integer model', 'Random classical circuits of up to 60 qubits.'),
 'C26': ('runtime monitor: oracles executed on all basis states with a recording stand-in for the synthesis library', 'The revkit library is not installed: the part of ProjectQ in front of it is what is judged.'),
 'C27': ('runtime monitor: classical/state-vector execution of emitted arithmetic circuits against integer arithmetic', 'Random operands, widths, controls; forward and inverse.'),
 'C28': ('runtime monitor: streams and results of interleaved instances against isolated runs', 'Process-wide history varied, global random state watched.'),
 'C29': ('runtime monitor: misuse injection with stream and follow-up oracles', 'A catalogue of malformed uses at random points of random programs.'),
}
NA = {}
checks, na = [], []
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t, note = T[i]
        checks.append(dict(property=i, quick_cmd='./run.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + i, technique=t,
                           level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built')))
m = dict(version=1, setup_cmd='PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m vlib.native rel nointrin asan asan_nointrin clang tsan tsan_nointrin',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: everything is observed through public interfaces, monitoring engines and sanitizer builds of the native module (built out of tree into /verif/.build from the current tree).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
