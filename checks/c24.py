"""C24: the unitary simulator reports the circuit's exact unitary history."""
import math

import numpy as np

from vlib import ref
from vlib.harness import Job, Skip, Violation
from vlib.pq import RefBackend, Tap, cmd_repr, gate_matrix, notes

RULE = ('random circuits of one- to three-qubit matrix gates (scattered targets in any order, up to three controls) with qubit creation, measurement, deletion '
        'and flushing at random points, directly, behind the replacer/optimizer, behind a relabelling mapper and as a middle engine; the reported unitary and the '
        'whole history are compared with an independently accumulated matrix after random steps; outcomes must be possible, repeatable and, after '
        'rotating the predicted state to a basis state, certain')
ASSUMPTIONS = ['up to six qubits', 'accuracy 1e-10']
MIN = dict(unitaries_compared=800, histories_compared=200, measurements=300, states_verified=100, refused=100)


def gates(rng):
    import projectq.ops as o
    k = rng.choice(['fixed', 'fixed', 'angle', 'random', 'two', 'two', 'random2', 'random3'])
    r = np.random.RandomState(rng.randrange(2**31))
    if k == 'fixed':
        return rng.choice([o.X, o.Y, o.Z, o.H, o.S, o.T, o.Sdag, o.Tdag, o.SqrtX]), 1
    if k == 'angle':
        return rng.choice([o.Rx, o.Ry, o.Rz, o.R, o.Ph])(rng.choice([rng.uniform(-7, 7), math.pi, math.pi / 2])), 1
    if k == 'two':
        return rng.choice([o.Swap, o.SqrtSwap, o.Rxx(rng.uniform(0, 6)), o.Ryy(rng.uniform(0, 6)), o.Rzz(rng.uniform(0, 6))]), 2
    n = dict(random=1, random2=2, random3=3)[k]
    m = ref.random_unitary(r, 1 << n)
    return o.MatrixGate(rng.choice([m, m.tolist(), np.matrix(m)])), n


class Model:
    """Positions in order of creation; unitary, history and state."""

    def __init__(self):
        self.pos, self.u, self.hist, self.state, self.ended = [], np.eye(1, dtype=complex), [], np.ones(1, complex), False
        self.init = np.ones(1, complex)

    def begin(self):
        if self.ended:
            self.hist.append(self.u)
            self.u = np.eye(1 << len(self.pos), dtype=complex)
            self.ended = False

    def alloc(self, name):
        self.begin()
        self.pos.append(name)
        self.u = np.kron(np.eye(2), self.u)
        self.state = np.kron([1, 0], self.state)

    def gate(self, m, names, ctrl=()):
        self.begin()
        n = len(self.pos)
        t, c = [self.pos.index(x) for x in names], [self.pos.index(x) for x in ctrl]
        full = np.zeros((1 << n, 1 << n), complex)
        for col in range(1 << n):
            if not all(col >> i & 1 for i in c):
                full[col, col] = 1
                continue
            k = sum((col >> p & 1) << i for i, p in enumerate(t))
            base = col
            for p in t:
                base &= ~(1 << p)
            for j in range(1 << len(t)):
                full[base | sum((j >> i & 1) << p for i, p in enumerate(t)), col] = m[j, k]
        self.u = full @ self.u
        self.state = full @ self.state

    def project(self, name, value):
        p = self.pos.index(name)
        keep = np.array([(i >> p & 1) == value for i in range(len(self.state))])
        w = float(np.sum(np.abs(self.state[keep]) ** 2))
        self.ended = True
        self.state = np.where(keep, self.state, 0)
        if w > 0:
            self.state = self.state / math.sqrt(w)
        return w

    def prob(self, name):
        p = self.pos.index(name)
        return float(sum(abs(a) ** 2 for i, a in enumerate(self.state) if i >> p & 1))

    def remove(self, name, value):
        p = self.pos.index(name)
        keep = [i for i in range(len(self.state)) if (i >> p & 1) == value]
        self.state = self.state[keep]
        self.pos.pop(p)
        self.ended = True


def householder(psi):
    """A unitary that maps psi to |0..0> up to phase."""
    v = psi / np.linalg.norm(psi)
    ph = v[0] / abs(v[0]) if abs(v[0]) > 1e-12 else 1
    w = v.copy()
    w[0] += ph
    w = w / np.linalg.norm(w)
    return np.eye(len(v)) - 2 * np.outer(w, w.conj())


def case(ctx, rng, idx):
    from checks.c25 import relabel
    from projectq import MainEngine
    from projectq.backends import UnitarySimulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer
    from projectq.meta import Control
    from projectq.ops import Deallocate, MatrixGate, Measure, All
    import projectq.setups.decompositions as dec
    setup = rng.choice(['plain', 'plain', 'plain', 'optimizer', 'replacer', 'mapper', 'middle'])
    sim = UnitarySimulator()
    engines, backend, sent = [], sim, []
    if setup == 'optimizer':
        engines = [LocalOptimizer(rng.choice([2, 10]))]
    elif setup == 'replacer':
        engines = [AutoReplacer(DecompositionRuleSet(modules=[dec])), LocalOptimizer(4)]
    elif setup == 'mapper':
        ids = rng.sample(range(40), 40)
        engines = [relabel(ids)]
    elif setup == 'middle':
        backend = RefBackend(seed=idx)
        engines = [Tap(lambda c: sent.append(cmd_repr(c))), sim]
    if setup != 'middle' and rng.random() < .3:
        engines.append(notes(rng))
    eng = MainEngine(backend=backend, engine_list=engines, verbose=True)
    import random as _random
    _random.seed(idx)
    # a second model follows the commands the engines deliver (the optimizer may cancel or reorder gates)
    m = Model()
    live, log = [], []
    most = rng.randint(1, 6) if rng.random() < .8 else 3
    ctx.describe(log)
    log.append('setup ' + setup)
    exact = setup != 'replacer'
    lookup = {}

    def same(a, b):
        return a.shape == b.shape and (np.abs(a - b).max() < 1e-10 if exact else ref.phase_distance(a.flatten() / math.sqrt(len(a)), b.flatten() / math.sqrt(len(a))) < 1e-9)

    def compare(where):
        if not m.ended or rng.random() < .5:
            eng.flush()
        u = sim.unitary
        ctx.count('unitaries_compared')
        if not same(u, m.u):
            raise Violation('unitary', 'reported unitary (%s) differs (%s)' % (u.shape, where), got=np.round(u, 4).tolist() if u.size < 70 else None,
                            want=np.round(m.u, 4).tolist() if u.size < 70 else None, log=log[-40:])
        h = sim.history
        if len(h) != len(m.hist):
            raise Violation('history-length', 'history holds %d unitaries, expected %d (%s)' % (len(h), len(m.hist), where), log=log[-40:])
        for i, (a, b) in enumerate(zip(h, m.hist)):
            ctx.count('histories_compared')
            if not same(a, b):
                raise Violation('history', 'entry %d of the history differs (%s)' % (i, where), got=np.round(a, 4).tolist() if a.size < 70 else None, want=np.round(b, 4).tolist() if a.size < 70 else None, log=log[-40:])
        # the caller's copies are the caller's
        if u.size and rng.random() < .3:
            u[0, 0] += 5
            for a in h:
                a[0, 0] -= 3
            h.append(None)
            if not same(sim.unitary, m.u) or len(sim.history) != len(m.hist) or not all(same(a, b) for a, b in zip(sim.history, m.hist)):
                raise Violation('aliasing', 'changing the returned matrices changes the backend')

    def measured(q, v, how):
        p = m.prob(q.id)
        ctx.count('measurements')
        if (p if v else 1 - p) < 1e-9:
            raise Violation('impossible-outcome', '%s of qubit %d gave %d, P(1)=%.3g' % (how, q.id, v, p), log=log[-40:])
        m.project(q.id, int(v))

    try:
        for _ in range(rng.randint(1, most)):
            q = eng.allocate_qubit()[0]
            live.append(q)
            m.alloc(q.id)
            if setup in ('optimizer', 'replacer'):
                eng.flush()             # the order of creation is the one the backend sees
        for step in range(rng.randint(4, 25)):
            ev = rng.choice(['gate'] * 6 + ['new', 'flush', 'compare', 'compare', 'measure', 'query', 'delete', 'verify', 'refuse', 'early'])
            if setup == 'middle' and ev in ('measure', 'query', 'delete', 'verify', 'early'):
                ev = 'gate'
            if setup == 'optimizer' or setup == 'replacer':
                # gates may be held back until the flush: keep the order of events fixed
                if ev in ('new', 'delete', 'measure', 'query'):
                    eng.flush()
            if ev == 'gate' and live:
                g, k = gates(rng)
                if k > len(live) or (setup == 'replacer' and k > 1):
                    continue
                c = rng.sample(live, min(len(live), k + rng.choice([0, 0, 0, 1, 2, 3])))
                qs, c = c[:k], c[k:]
                log.append('%s on %s c%s' % (g if type(g).__name__ != 'MatrixGate' else 'M', [q.id for q in qs], [q.id for q in c]))
                arg = qs if type(g).__name__ == 'MatrixGate' else tuple(qs) if k > 1 else qs[0]
                if c:
                    with Control(eng, c):
                        g | arg
                else:
                    g | arg
                mat = np.asarray(g.matrix if type(g).__name__ == 'MatrixGate' else gate_matrix(g, [1] * k))
                m.gate(mat, [q.id for q in qs], [q.id for q in c])
                ctx.sig(type(g).__name__, k, len(c), len(live), setup)
                if setup in ('optimizer', 'replacer'):
                    eng.flush()
            elif ev == 'new' and len(live) < most:
                log.append('new')
                q = eng.allocate_qubit()[0]
                live.append(q)
                m.alloc(q.id)
                if setup in ('optimizer', 'replacer'):
                    eng.flush()
            elif ev == 'flush':
                eng.flush()
            elif ev == 'compare':
                compare('step %d' % step)
            elif ev == 'measure' and live:
                eng.flush()
                qs = rng.sample(live, rng.randint(1, len(live)))
                log.append('measure %s' % [q.id for q in qs])
                All(Measure) | qs
                eng.flush()
                for q in qs:
                    measured(q, int(q), 'measurement')
                if rng.random() < .5:
                    All(Measure) | qs
                    eng.flush()
                    for q in qs:
                        measured(q, int(q), 'second measurement')
                ctx.sig('measure', len(qs), len(live), setup)
            elif ev == 'query' and live and setup == 'plain':
                # the public measure_qubits of the backend
                eng.flush()
                qs = rng.sample(live, rng.randint(1, len(live)))
                log.append('measure_qubits %s' % [q.id for q in qs])
                ended = m.ended
                res = sim.measure_qubits([q.id for q in qs])
                if len(res) != len(qs):
                    raise Violation('measure-qubits', '%d results for %d qubits' % (len(res), len(qs)))
                for q, v in zip(qs, res):
                    measured(q, int(v), 'measure_qubits')
                # follow up with a measurement command so that the reset rule is the documented one
                All(Measure) | qs
                eng.flush()
                for q in qs:
                    measured(q, int(q), 'measurement after measure_qubits')
            elif ev == 'delete' and len(live) > 1:
                if setup != 'plain' or rng.random() < .4:
                    eng.flush()
                certain = [i for i, q in enumerate(live) if not 1e-9 < m.prob(q.id) < 1 - 1e-9]
                q = live.pop(rng.choice(certain) if certain and rng.random() < .6 else rng.randrange(len(live)))
                p = m.prob(q.id)
                log.append('delete %d P(1)=%.3g' % (q.id, p))
                if 1e-9 < p < 1 - 1e-9:
                    eng.flush()
                    Measure | q
                    eng.flush()
                    measured(q, int(q), 'measurement')
                    p = m.prob(q.id)
                m.remove(q.id, int(p > .5))
                eng.deallocate_qubit(q)
                if setup in ('optimizer', 'replacer'):
                    eng.flush()
            elif ev == 'verify' and live and setup == 'plain' and len(live) <= 4:
                # rotate the predicted state to a basis state: all outcomes are then certain
                k = rng.randrange(1 << len(live))
                hh = householder(m.state)
                perm = np.eye(1 << len(live))[:, [i ^ k for i in range(1 << len(live))]]
                ids = list(m.pos)
                by = {q.id: q for q in live}
                order = rng.sample(ids, len(ids))
                mat = perm @ hh
                # matrix on the register in another qubit order
                n = len(ids)
                idxs = [sum((i >> order.index(x) & 1) << p for p, x in enumerate(ids)) for i in range(1 << n)]
                log.append('verify')
                MatrixGate(mat[np.ix_(idxs, idxs)]) | [by[x] for x in order]
                m.gate(mat, ids)
                compare('after rotating the state')
                All(Measure) | live
                eng.flush()
                for p, x in enumerate(ids):
                    if int(by[x]) != (k >> p & 1):
                        raise Violation('state', 'after rotating the predicted state to |%d> qubit %d reads %d' % (k, p, int(by[x])), log=log[-40:])
                    m.project(x, k >> p & 1)
                ctx.count('states_verified')
            elif ev == 'refuse' and live:
                import projectq.ops as o
                h = rng.choice([o.QFT, o.Entangle, o.BasicGate(), o.BasicMathGate(lambda a: (a,)), o.TimeEvolution(1., o.QubitOperator('X0')), o.StatePreparation([1, 0]), o.UniformlyControlledRy([.1])])
                cmd = h.generate_command(([], live[0]) if 'Uniform' in type(h).__name__ else [live[0]])
                if sim.is_available(cmd):
                    raise Violation('available', '%s has no matrix but is declared executable' % cmd_repr(cmd))
                if len(live) > 1:
                    cmd = o.X.generate_command(live[0])
                    cmd.add_control_qubits([live[1]], '0')
                    if sim.is_available(cmd):
                        raise Violation('available', 'negative control declared executable')
                    cmd = o.X.generate_command(live[0])
                    cmd.add_control_qubits([live[1]], '1')
                    if not sim.is_available(cmd):
                        raise Violation('unavailable', 'controlled X declared not executable')
                ctx.count('refused')
            elif ev == 'early' and live and setup == 'plain':
                # measuring before the flush must be reported, and not count as a measurement
                g, k = gates(rng)
                if k > 1:
                    continue
                g | live[0]
                m.gate(np.asarray(g.matrix), [live[0].id])
                log.append('early measurement')
                try:
                    Measure | live[-1]
                except RuntimeError:
                    ctx.count('refused')
                else:
                    raise Violation('early-measurement', 'measuring before the flush: no error')
        eng.flush()
        compare('end')
        if setup == 'middle':
            if backend.log != sent:
                raise Violation('not-forwarded', 'the next engine saw another stream', got=backend.log[-20:], want=sent[-20:])
            d = np.abs(backend.state.reorder([q.id for q in live]) - m.state).max()
            if d > 1e-9:
                raise Violation('forwarded', 'the next engine computed another state (%.3g)' % d)
    finally:
        for q in live:
            q.id = -1


def case_frequency(ctx, rng, idx):
    """Outcome frequencies of entangled states (bound: false alarm below 1e-9)."""
    from projectq import MainEngine
    from projectq.backends import UnitarySimulator
    from projectq.ops import All, MatrixGate, Measure
    import random as _random
    _random.seed(idx * 7 + 1)
    n = rng.randint(1, 2)
    u = ref.random_unitary(np.random.RandomState(rng.randrange(2**31)), 1 << n)
    runs = 300
    seen = [0] * (1 << n)
    for _ in range(runs):
        eng = MainEngine(backend=UnitarySimulator(), engine_list=[], verbose=True)
        q = eng.allocate_qureg(n)
        MatrixGate(u) | q
        eng.flush()
        All(Measure) | q
        eng.flush()
        seen[sum(int(x) << i for i, x in enumerate(q))] += 1
        for x in q:
            x.id = -1
    for k in range(1 << n):
        p = abs(u[k, 0]) ** 2
        if abs(seen[k] / runs - p) > math.sqrt(math.log(2e10) / (2 * runs)):      # Hoeffding
            raise Violation('frequency', 'outcome %d: %d of %d, P=%.3g' % (k, seen[k], runs, p))
    ctx.count('measurements', runs)
    ctx.sig('freq', idx)


JOBS = dict(
    history=Job(case, 2500, 30000, shards=4),
    frequency=Job(case_frequency, 12, 100, shards=1),
)
