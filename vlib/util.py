"""Common oracles: run a program through an engine list and compare with its meaning."""
import numpy as np

from . import prog, ref
from .harness import Violation
from .pq import Lifecycle, RefBackend, Tap


def main_engine(backend, engines):
    from projectq import MainEngine
    return MainEngine(backend=backend, engine_list=engines, verbose=True)


def run_ref(ctx, body, engines, seed, backend=None, available=None, tol=2e-8, key='wrong-state', lifecycle=True, resilience=True):
    """Execute body through engines on a RefBackend; compare final state, outcomes and live qubits with the meaning of
    the program. Returns (eng, runner, machine, backend)."""
    be = backend or RefBackend(seed=seed, available=available)
    eng = main_engine(be, engines)
    r = prog.Runner(eng)
    r.run(body)
    eng.flush()
    m = prog.Machine(seed, lid=lambda n: r.ids[n])
    m.forced = {(l, o): v for l, o, p, v in be.outcomes}
    m.run(body)
    compare(ctx, eng, r, m, be, tol, key, lifecycle)
    return eng, r, m, be


def compare(ctx, eng, r, m, be, tol=2e-8, key='wrong-state', lifecycle=True):
    if be.errors:
        raise Violation(key + ':stream-error', be.errors[0], log=be.log[-60:])
    if lifecycle and be.life.errors:
        raise Violation('lifecycle', be.life.errors[0], log=be.log[-60:])
    if be.refused:
        raise Violation('unsupported-command', 'command outside the supported set reached the backend: %s' % be.refused[0], log=be.log[-40:])
    # outcomes per logical qubit
    got = {(l, o): (p, v) for l, o, p, v in be.outcomes}
    exp = {(l, o): (p, v) for l, o, p, v in m.outcomes}
    ctx.count('measurements', len(exp))
    if set(got) != set(exp):
        raise Violation(key + ':measurements', 'measurements differ: backend %s, program %s' % (sorted(got), sorted(exp)), log=be.log[-60:])
    if m.impossible:
        raise Violation(key + ':impossible-outcome', 
                        'measurement of logical qubit %s (no. %d): the program has P(1)=%g, the outcome was %d' % m.impossible, log=be.log[-60:])
    # independent measurements may be executed in another order: the joint probability of the outcomes must agree
    pg = pe = 1.
    for k in exp:
        pg *= got[k][0] if got[k][1] else 1 - got[k][0]
        pe *= exp[k][0] if exp[k][1] else 1 - exp[k][0]
        if got[k][1] != exp[k][1]:
            raise Violation(key + ':outcome', 'measurement %s differs' % (k,))
    same_order = [x[:2] for x in be.outcomes] == [x[:2] for x in m.outcomes]
    if same_order:
        for k in exp:
            if abs(got[k][0] - exp[k][0]) > 1e-5:
                raise Violation(key + ':outcome-probability', 'measurement %s: P(1)=%g at the backend, %g by the program' % (k, got[k][0], exp[k][0]), log=be.log[-60:])
    elif abs(pg - pe) > 1e-5:
        raise Violation(key + ':outcome-probability', 'joint probability of the outcomes: %g at the backend, %g by the program' % (pg, pe), log=be.log[-60:])
    for n, v in m.values.items():
        if n in r.q:
            x = int(r.q[n])
            if x != v:
                raise Violation(key + ':reported-value', 'qubit %s reads %d, outcome was %d' % (n, x, v))
    mapping = None
    if eng.mapper is not None:
        mapping = eng.mapper.current_mapping
    names = list(m.state.names)
    ids = [r.ids[n] for n in names]
    phys = ids if mapping is None else [mapping.get(i) for i in ids]
    if None in phys:
        raise Violation(key + ':mapping', 'live qubit missing from the mapping %s' % (mapping,), log=be.log[-40:])
    if sorted(be.state.names) != sorted(phys):
        raise Violation(key + ':live-qubits', 'backend holds qubits %s, the program has %s' % (sorted(be.state.names), sorted(phys)), log=be.log[-60:])
    d = ref.phase_distance(be.state.reorder(phys), m.state.reorder(names))
    ctx.count('states_compared')
    ctx.count('commands_observed', be.life.events)
    if d > tol:
        raise Violation(key, 'final state differs from the meaning of the program by %.3g' % d, log=be.log[-80:])


def finish_engine(eng):
    """End an engine's life the way the process exit would, and detach it."""
    eng.flush(deallocate_qubits=True)
