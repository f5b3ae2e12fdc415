"""C04: simulator queries, state edits and malformed requests."""
import numpy as np

from vlib import prog, ref, simdrv
from vlib.harness import Job, Skip, Violation
from vlib.simdrv import must_reject

RULE = ('random histories interleaving queries and state edits (any register subset and order, pending fused gates) with gates, and malformed '
        'requests, on both implementations, native and through the engine (with and without a mapper); non-trivial by operation set')
ASSUMPTIONS = ['bit strings longer than the register are tolerated by design (existing tests rely on it)']
MIN = dict(queries=2000, edits=500, rejected=400)


def _sim(ctx, seed):
    if 'py' in ctx.job:
        from projectq.backends._sim._pysim import Simulator
    else:
        from projectq.backends._sim._cppsim import Simulator
    return Simulator(seed)


def history(ctx, rng, idx):
    py = 'py' in ctx.job
    maxq = rng.choice([1, 2, 4] if py else [1, 3, 5, 7])
    d = simdrv.Native(ctx, rng, _sim(ctx, rng.randrange(1 << 32)), maxq, ids=rng.choice(['small', 'wild']))
    for _ in range(rng.randint(1, maxq)):
        d.alloc()
    if rng.random() < .5:
        d.set_wf()
    for i in range(40):
        r = rng.random()
        if d.ref.n < maxq and r < (.5 if d.ref.n == 0 else .05):
            d.alloc()
        elif not d.ref.n:
            continue
        elif r < .40:
            d.gate()
        elif r < .43:
            d.dealloc()
        elif r < .46:
            d.measure()
        elif r < .70:
            rng.choice([d.q_probability, d.q_amplitude, d.q_expectation])()
        elif r < .90:
            rng.choice([d.e_operator, d.set_wf, d.e_evolve, d.e_collapse])()
        else:
            malformed(d, rng)
        if i % 6 == 0:
            d.compare()
    d.compare()
    ctx.sig(sorted(d.feat))
    if idx < 2:
        ctx.sample([repr(h)[:100] for h in d.hist[:10]])


def huge(ctx, rng, idx):
    """Long registers: queries and edits beyond 2^16 amplitudes."""
    maxq = rng.randint(16, 19 if ctx.thorough else 18)
    d = simdrv.Native(ctx, rng, _sim(ctx, rng.randrange(1 << 32)), maxq, ids=rng.choice(['small', 'wild']))
    while d.ref.n < maxq:
        d.alloc()
    if rng.random() < .5:
        d.set_wf()
    for i in range(16):
        r = rng.random()
        if d.ref.n < maxq and r < .1:
            d.alloc()
        elif r < .35 or i < 3:
            d.gate()
        elif r < .4:
            rng.choice([d.dealloc, d.measure])()
        elif r < .7:
            rng.choice([d.q_probability, d.q_amplitude, d.q_expectation])()
        elif r < .95:
            rng.choice([d.e_operator, d.set_wf, d.e_evolve, d.e_collapse])()
        else:
            malformed(d, rng)
    d.compare()
    ctx.sig('huge', maxq, sorted(d.feat))


def malformed(d, rng):
    s, n = d.sim, d.ref.n
    ids = list(d.ref.names)
    rng.shuffle(ids)
    bad = next(i for i in (7777, 7778, 7779, 7780) if i not in ids)
    withbad = list(ids)
    withbad[rng.randrange(n)] = bad
    X = [[0, 1], [1, 0]]
    op = [([(0, 'X')], 1.0)]
    full = simdrv.random_state(rng, n).tolist()
    c = rng.randrange(18)
    if c == 0:
        must_reject(d, 'probability of unknown qubit', lambda: s.get_probability([True] * n, withbad))
    elif c == 1:
        must_reject(d, 'probability with short bit string', lambda: s.get_probability([True] * (n - 1), ids))
    elif c == 2:
        must_reject(d, 'amplitude of unknown qubit', lambda: s.get_amplitude([False] * n, withbad))
    elif c == 3:
        must_reject(d, 'amplitude with short bit string', lambda: s.get_amplitude([False] * (n - 1), ids))
    elif c == 4:
        must_reject(d, 'amplitude of a part of the qubits', lambda: s.get_amplitude([False] * (n - 1), ids[:-1]))
    elif c == 5:
        must_reject(d, 'wavefunction too long', lambda: s.set_wavefunction(full + full, ids))
    elif c == 6:
        must_reject(d, 'wavefunction too short', lambda: s.set_wavefunction(full[:len(full) // 2], ids))
    elif c == 7:
        must_reject(d, 'wavefunction of unknown qubit', lambda: s.set_wavefunction(full, withbad))
    elif c == 8:
        must_reject(d, 'wavefunction for a part of the qubits', lambda: s.set_wavefunction(simdrv.random_state(rng, n - 1).tolist(), ids[:-1]))
    elif c == 9 and n > 1:
        must_reject(d, 'wavefunction with a repeated qubit', lambda: s.set_wavefunction(full, [ids[0]] * 2 + ids[2:]))
    elif c == 10:
        must_reject(d, 'collapse of unknown qubit', lambda: s.collapse_wavefunction([bad], [True]))
    elif c == 11:
        must_reject(d, 'collapse with wrong number of values', lambda: s.collapse_wavefunction(ids, [True] * (n + 1)))
    elif c == 12:
        must_reject(d, 'expectation with unknown qubit', lambda: s.get_expectation_value(op, [bad]))
    elif c == 13:
        must_reject(d, 'operator on unknown qubit', lambda: s.apply_qubit_operator([([(0, 'X')], 1.0 + 0j)], [bad]))
    elif c == 14:
        must_reject(d, 'gate on unknown qubit', lambda: (s.apply_controlled_gate(X, [bad], []), s.run()))
    elif c == 15:
        must_reject(d, 'gate controlled by unknown qubit', lambda: (s.apply_controlled_gate(X, [ids[0]], [bad]), s.run()))
    elif c == 16:
        must_reject(d, 'measuring unknown qubit', lambda: s.measure_qubits([bad]))
    elif c == 17:
        must_reject(d, 'deallocating unknown qubit', lambda: s.deallocate_qubit(bad))


class PermMapper:
    """A mapper engine assigning arbitrary physical ids (built on the public BasicMapperEngine)."""

    def __new__(cls, rng):
        from projectq.cengines import BasicMapperEngine

        class M(BasicMapperEngine):
            def __init__(self):
                super().__init__()
                self.current_mapping = {}
                self.pool = rng.sample(range(50), 50)

            def receive(self, command_list):
                from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate
                for cmd in command_list:
                    if isinstance(cmd.gate, FlushGate):
                        self.send([cmd])
                        continue
                    for qr in cmd.all_qubits:
                        for q in qr:
                            if q.id not in self.current_mapping:
                                mp = dict(self.current_mapping)
                                mp[q.id] = self.pool.pop()
                                self.current_mapping = mp
                    self._send_cmd_with_mapped_ids(cmd)
                    if isinstance(cmd.gate, DeallocateQubitGate):
                        mp = dict(self.current_mapping)
                        del mp[cmd.qubits[0][0].id]
                        self.current_mapping = mp
        return M()


def engine(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import LocalOptimizer
    from projectq.ops import QubitOperator
    el = []
    if rng.random() < .4:
        el.append(LocalOptimizer(rng.choice([2, 5, 50])))
    if rng.random() < .5:
        el.append(PermMapper(rng))
    if rng.random() < .3:
        from vlib.pq import notes
        el.append(notes(rng))
    be = Simulator(gate_fusion=rng.random() < .5, rnd_seed=rng.randrange(1 << 32))
    eng = MainEngine(backend=be, engine_list=el, verbose=True)
    phase = bool(el)
    er = simdrv.EngineRun(ctx, eng, rng, phase=phase, every=1000)
    g = prog.Gen(rng, max_qubits=4 if 'py' in ctx.job else 6, size=8, meta=False, neg=False, max_controls=2)
    body = g.program()
    ctx.describe(dict(engines=[type(e).__name__ for e in el], program=repr(body)[:2500]))
    feats = set()
    for st in body:
        er.step(st)
    for _ in range(12):
        if rng.random() < .5:
            live = list(er.m.state.names)
            if live:
                g.live = live
                er.step(g.gate_stmt(live))
        eng.flush()
        names = list(er.m.state.names)
        if not names:
            break
        rng.shuffle(names)
        regs = [er.r.q[n] for n in names]
        c = rng.randrange(11)
        feats.add(c)
        S = er.m.state
        if c == 0:
            k = rng.randint(1, len(names))
            bits = [rng.randint(0, 1) for _ in range(k)]
            arg = rng.choice([bits, ''.join(map(str, bits)), [bool(b) for b in bits]])
            got, exp = be.get_probability(arg, regs[:k]), S.probability(bits, names[:k])
            ok = abs(got - exp) < 1e-9
            ctx.count('queries')
        elif c == 1:
            bits = [rng.randint(0, 1) for _ in names]
            got, exp = complex(be.get_amplitude(bits, regs)), S.amplitude(bits, names)
            ok = abs(got - exp) < 1e-9 if not phase else abs(abs(got) - abs(exp)) < 1e-9
            ctx.count('queries')
        elif c == 2:
            k = rng.randint(1, len(names))
            t = simdrv.random_terms(rng, k)
            op = QubitOperator()
            for a, b in t.items():
                op += QubitOperator(a, b)
            got = be.get_expectation_value(op, regs[:k])
            exp = np.vdot(S.psi, simdrv.ref_operator(S, t, names[:k])).real
            ok = abs(got - exp) < 1e-9
            ctx.count('queries')
        elif c == 3:
            k = rng.randint(1, len(names))
            t = {a: b for a, b in simdrv.random_terms(rng, k, nterms=1, real=False).items()}
            (a, b), = t.items()
            b = b / abs(b)
            be.apply_qubit_operator(QubitOperator(a, b), regs[:k])
            S.psi = simdrv.ref_operator(S, {a: b}, names[:k])
            er.compare()
            ctx.count('edits')
            continue
        elif c == 4:
            k = rng.randint(1, len(names))
            bits = [rng.randint(0, 1) for _ in range(k)]
            p = S.probability(bits, names[:k])
            if p > 1e-6:
                be.collapse_wavefunction(regs[:k], bits)
                for n, b in zip(names, bits):
                    S.project(n, b)
                er.compare()
                ctx.count('edits')
            elif p < 1e-14:
                reject(ctx, er, 'impossible collapse', lambda: be.collapse_wavefunction(regs[:k], bits))
            continue
        elif c == 5:
            psi = simdrv.random_state(rng, len(names))
            be.set_wavefunction(psi, regs)
            S.names, S.psi = list(names), psi
            er.compare()
            ctx.count('edits')
            continue
        elif c == 6:
            reject(ctx, er, 'operator larger than the register', lambda: be.get_expectation_value(QubitOperator(((len(regs), 'X'),), 1.), regs))
            reject(ctx, er, 'operator larger than the register', lambda: be.apply_qubit_operator(QubitOperator(((len(regs) + 1, 'Z'),), 1.), regs))
            continue
        elif c == 7:
            reject(ctx, er, 'short bit string', lambda: be.get_probability([1] * (len(regs) - 1), regs))
            reject(ctx, er, 'short bit string', lambda: be.get_amplitude([1] * (len(regs) - 1), regs))
            continue
        elif c == 8:
            reject(ctx, er, 'wrong wavefunction length', lambda: be.set_wavefunction([1.0] + [0.0] * (1 << len(regs)), regs))
            if len(regs) > 1:
                reject(ctx, er, 'part of the qubits', lambda: be.set_wavefunction([1.0] + [0.0] * ((1 << (len(regs) - 1)) - 1), regs[:-1]))
                reject(ctx, er, 'part of the qubits', lambda: be.get_amplitude([0] * (len(regs) - 1), regs[:-1]))
            continue
        elif c == 9:
            from projectq.types import WeakQubitRef
            ghost = WeakQubitRef(eng, 4321)
            reject(ctx, er, 'unknown qubit', lambda: be.get_probability([1], [ghost]))
            reject(ctx, er, 'unknown qubit', lambda: be.collapse_wavefunction([ghost], [1]))
            reject(ctx, er, 'unknown qubit', lambda: be.get_expectation_value(QubitOperator('X0'), [ghost]))
            reject(ctx, er, 'unknown qubit', lambda: be.get_amplitude([0] * len(regs), regs[:-1] + [ghost]))
            continue
        else:
            if not any(isinstance(e, LocalOptimizer) for e in el):
                continue
            q = eng.allocate_qubit()
            # the allocation may still be cached in the optimizer
            try:
                p = be.get_probability([0], q)
            except Exception:
                ctx.count('rejected')
                p = 1.0
            if abs(p - 1) > 1e-9:
                raise Violation('wrong-answer:unflushed', 'a fresh qubit has P(0)=%g' % p)
            eng.flush()
            del q
            continue
        if not ok:
            raise Violation('wrong-answer:%d' % c, 'query %d answered %s, the state says %s (qubits %s)' % (c, got, exp, names), program=er.done[-20:])
        er.compare()  # the query left the state alone
    er.compare()
    ctx.sig('e', len(el), sorted(feats), sorted(prog.feature_set(body))[:6])


def reject(ctx, er, what, fn):
    try:
        r = fn()
    except Exception:
        ctx.count('rejected')
        er.compare()
        return
    raise Violation('accepted:' + what, 'malformed request accepted: %s -> %r' % (what, r), program=er.done[-20:])


def edge(ctx, rng, idx):
    """Collapse onto improbable outcomes, amplitudes and probabilities of any size."""
    n = rng.randint(1, 5)
    sim = _sim(ctx, rng.randrange(1 << 32))
    ids = rng.sample(range(50), n)
    for i in ids:
        sim.allocate_qubit(i)
    order = rng.sample(ids, n)
    psi = np.array([rng.choice([1, -1, 1j]) * rng.choice([0, 1, 10 ** rng.uniform(-5.6, 0)]) for _ in range(1 << n)], complex)
    psi[rng.randrange(1 << n)] = 1
    psi /= np.linalg.norm(psi)
    sim.set_wavefunction(psi.tolist(), order)
    state = dict((x, psi[x]) for x in range(1 << n))
    for _ in range(4):
        qs = rng.sample(ids, rng.randint(1, n))
        bits = [rng.randint(0, 1) for _ in qs]
        sel = [x for x in state if all((x >> order.index(q)) & 1 == b for q, b in zip(qs, bits))]
        p = sum(abs(state[x]) ** 2 for x in sel)
        got = sim.get_probability([bool(b) for b in bits], list(qs))
        ctx.count('queries')
        if abs(got - p) > 1e-12 + 1e-9 * p:
            raise Violation('edge-probability', 'probability %.12g instead of %.12g' % (got, p))
        x = rng.randrange(1 << n)
        perm = rng.sample(ids, n)
        a = sim.get_amplitude([bool((x >> order.index(q)) & 1) for q in perm], list(perm))
        if abs(a - psi[x]) > 1e-13:
            raise Violation('edge-amplitude', 'amplitude %s instead of %s' % (a, psi[x]))
    if 0 < p < 4e-12:
        raise Skip
    try:
        sim.collapse_wavefunction(list(qs), [bool(b) for b in bits])
    except Exception as e:
        if p:
            raise Violation('edge-collapse', 'collapse onto an outcome of probability %.3g is refused: %r' % (p, e))
        ctx.count('rejected')
        ctx.sig('edge', n, 'refused')
        return
    if not p:
        raise Violation('edge-impossible-collapse', 'collapse onto an impossible outcome is accepted')
    m, v = sim.cheat()
    for x in state:
        y = sum(((x >> order.index(q)) & 1) << m[q] for q in ids)
        want = state[x] / np.sqrt(p) if x in sel else 0
        if abs(v[y] - want) > 1e-9:
            raise Violation('edge-collapsed-state', 'amplitude %s instead of %s after collapse onto an outcome of probability %.3g' % (v[y], want, p))
    ctx.count('edits')
    ctx.sig('edge', n, len(qs), int(np.log10(p)))


JOBS = {
    'history': Job(history, 500, variant='rel', shards=2, time_quick=30),
    'history_py': Job(history, 300, variant=None, shards=2, time_quick=30),
    'portable': Job(history, 200, variant='nointrin', shards=1, time_quick=30),
    'huge': Job(huge, 20, variant='rel', shards=1, env={'OMP_NUM_THREADS': '2'}),
    'edge': Job(edge, 800, variant='rel', shards=1),
    'edge_py': Job(edge, 600, variant=None, shards=1),
    'engine': Job(engine, 400, variant='rel', shards=2, time_quick=30),
    'engine_py': Job(engine, 250, variant=None, shards=2, time_quick=30),
}
