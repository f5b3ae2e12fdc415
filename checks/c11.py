"""C11: every decomposition rule implements the gate it replaces."""
import cmath
import math

import numpy as np

from vlib import prog, ref, util
from vlib.harness import Job, Skip, Violation
from vlib.pq import RefBackend, cmd_kind, gate_matrix

RULE = ('one registered rule at a time: a command for its gate class (random and special parameters, 1-4 targets, 0-3 controls, optionally the '
        'inverse) applied to a random entangled state with a spectator, replaced once by the auto-replacer with only that rule, and compared with '
        'the matrix of the gate; non-trivial when the rule recognised the command, by rule, sizes, controls, direction and emitted commands')
ASSUMPTIONS = ['commands with negative controls are first rewritten by the control-state rule (the documented design of the auto-replacer), so the '
               'other rules get positive controls', 'up to 8 qubits including helpers', 'tolerance 1e-9']
MIN = dict(recognised=500, states_compared=500)

PI = math.pi


def ang(rng):
    r = rng.random()
    if r < .4:
        return rng.choice([0.0, PI, -PI, PI / 2, -PI / 2, PI / 4, 2 * PI, 3 * PI, 4 * PI - 1e-3, 1e-5, -1e-8, 7 * PI / 2])
    return rng.uniform(-7, 14)


def special_unitary(rng):
    """2x2 unitaries including the neighbourhoods of diagonal and antidiagonal ones."""
    a, b, c = [rng.choice([0.0, PI, PI / 2, -PI / 2, 1e-13, 1e-9, rng.uniform(0, 6.28), rng.uniform(0, 6.28)]) for _ in range(3)]
    d = rng.choice([0.0, PI / 2, PI / 4, PI]) if rng.random() < .5 else rng.uniform(0, PI)
    if rng.random() < .4:
        d += rng.choice([1, -1]) * 10 ** -rng.uniform(2, 15)
    ph = cmath.exp(1j * a)
    return np.array([[ph * cmath.exp(1j * b) * math.cos(d), ph * cmath.exp(1j * c) * math.sin(d)],
                     [-ph * cmath.exp(-1j * c) * math.sin(d), ph * cmath.exp(-1j * b) * math.cos(d)]])


def fixed(rng):
    import projectq.ops as o
    return rng.choice([o.X, o.Y, o.Z, o.H, o.S, o.T, o.SqrtX, o.Rx(ang(rng)), o.Ry(ang(rng)), o.Rz(ang(rng)), o.R(ang(rng)),
                       o.Ph(ang(rng)), o.MatrixGate(special_unitary(rng)), o.MatrixGate(special_unitary(rng))])


def hamiltonian(rng, k, single=False):
    from projectq.ops import QubitOperator
    h = QubitOperator()
    kind = rng.choice(['axes', 'axes', 'pairs', 'random'])
    if single or rng.random() < .35:
        t = tuple((i, rng.choice('XYZ')) for i in range(k))
        return QubitOperator(t, rng.choice([1.0, -1.0, .5, rng.uniform(-3, 3)]))
    if kind == 'pairs' and k >= 2:    # XX, YY, ZZ commute
        for p in 'XYZ':
            h += QubitOperator(((0, p), (1, p)), rng.uniform(-2, 2))
        return h
    axes = [rng.choice('XYZ') for _ in range(k)]
    for _ in range(rng.randint(1, 4)):
        if kind == 'random':
            axes = [rng.choice('XYZ') for _ in range(k)]
        t = tuple((i, axes[i]) for i in range(k) if rng.random() < .7)
        h += QubitOperator(t, rng.uniform(-2, 2))
    return h


def two_regs(rng, k):
    return [k]


def candidates(rng, cls):
    """(gate, register sizes, control range) for a gate class name."""
    import projectq.ops as o
    if cls == 'XGate':
        return o.X, [1], (1, 2)
    if cls == 'HGate':
        return o.H, [1], (0, 1)
    if cls in ('Rx', 'Ry', 'Rz'):
        return getattr(o, cls)(ang(rng)), [1], (0, 1)
    if cls == 'R':
        return o.R(ang(rng)), [1], (0, 3)
    if cls == 'Ph':
        return o.Ph(ang(rng)), [1], (0, 3)
    if cls == 'SwapGate':
        return o.Swap, [1, 1], (0, 3)
    if cls == 'SqrtSwapGate':
        return o.SqrtSwap, [1, 1], (0, 3)
    if cls == 'EntangleGate':
        return o.Entangle, [rng.randint(1, 4)], (0, 2)
    if cls == 'QFTGate':
        return (o.QFT, [rng.choice([6, 7, 8])], (0, 0)) if rng.random() < .12 else (o.QFT, [rng.randint(1, 4)], (0, 2))
    if cls == 'BarrierGate':
        return o.Barrier, [rng.randint(1, 3)], (0, 0)
    if cls == 'QubitOperator':
        k = rng.randint(1, 3)
        t = tuple((i, rng.choice('XYZ')) for i in range(k) if rng.random() < .8) or ((k - 1, rng.choice('XYZ')),)
        return o.QubitOperator(t, rng.choice([1, -1, 1j, -1j, cmath.exp(.7j)])), [k], (0, 2)
    if cls == 'TimeEvolution':
        k = rng.randint(1, 4)
        return o.TimeEvolution(rng.choice([0.0, 1.0, -1.0, rng.uniform(-3, 3)]), hamiltonian(rng, k)), [k], (0, 2)
    if cls in ('UniformlyControlledRy', 'UniformlyControlledRz'):
        k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 5])
        a = [rng.choice([0.0, .5, PI, 2 * PI, -PI]) if rng.random() < .3 else rng.uniform(-7, 7) for _ in range(1 << k)]
        if rng.random() < .2:
            a = [a[0]] * len(a)
        return getattr(o, cls)(a), [k, 1], (0, 2)
    if cls == 'StatePreparation':
        k = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) if rng.random() < .7 else 0j for _ in range(1 << k)])
        if rng.random() < .2:
            v = np.array([complex(abs(x)) for x in v])
        if not np.any(v):
            v[rng.randrange(1 << k)] = rng.choice([1, -1, 1j])
        v = v / np.linalg.norm(v)
        return o.StatePreparation(list(v)), [k], (0, 2)
    if cls == 'QPE':
        n, k = rng.choice([1, 2, 2, 3, 3, 4, 5]), rng.randint(1, 2)
        kind = rng.choice(['matrix', 'gate', 'function'])
        if kind == 'gate' or (kind == 'matrix' and k == 1):
            g = rng.choice([o.Rz(ang(rng)), o.T, o.H, o.Ph(ang(rng)), o.MatrixGate(special_unitary(rng))])
            q = o.QPE(g)
            q.verif_matrix = gate_matrix(g, [1])
            return q, [n, 1], (0, 1)
        if kind == 'matrix':
            g = rng.choice([o.QFT, o.MatrixGate(ref.random_unitary(np.random.default_rng(rng.randrange(1 << 30)), 4))])
            q = o.QPE(g)
            q.verif_matrix = gate_matrix(g, [2])
            return q, [n, 2], (0, 1)
        t1, t2 = ang(rng), ang(rng)

        def unitary(qs, time):
            o.Rx(t1 * time) | qs[0]
            if len(qs) > 1:
                o.Rzz(t2 * time) | (qs[0], qs[1])
                o.Rx(-t1 * time) | qs[0]
            else:
                o.Ph(t2 * time) | qs[0]

        def mat(time):
            rx = ref.rot(ref.X, t1 * time)
            if k > 1:
                r1 = ref.kron_le([rx, ref.I2])
                return r1.conj().T @ ref.rot(np.kron(ref.Z, ref.Z), t2 * time) @ r1
            return np.exp(1j * t2 * time) * rx
        q = o.QPE(unitary)
        q.verif_matrix = mat
        return q, [n, k], (0, 1)
    if cls == 'QAA':
        return qaa(rng)
    if cls == 'BasicGate':
        return None
    raise Skip


def qaa(rng):
    import projectq.ops as o
    from projectq.meta import Control
    k = rng.choice([1, 2, 2, 3, 3, 4])
    us = [special_unitary(rng) for _ in range(k)]
    mark = rng.randrange(1 << k)

    def algorithm(eng, qs):
        for u, q in zip(us, qs):
            o.MatrixGate(u) | q
        if k > 1:
            o.CNOT | (qs[0], qs[1])

    def oracle(eng, qs, anc):
        with Control(eng, qs, ''.join(str((mark >> i) & 1) for i in range(k))):
            o.X | anc
    am = ref.kron_le(us)
    if k > 1:
        am = ref.perm_matrix(lambda x: x ^ ((x & 1) << 1), k) @ am
    N = 1 << k
    om = ref.perm_matrix(lambda x: x ^ (N if (x & (N - 1)) == mark else 0), k + 1)
    s0 = np.eye(N, dtype=complex)
    s0[0, 0] = -1
    g = o.QAA(algorithm, oracle)
    # the iterate A S_0 A^-1 S_chi with its sign: -A S_0 A^-1 S_chi amplifies
    g.verif_matrix = np.kron(np.eye(2), -am @ s0 @ am.conj().T) @ om
    return g, [k, 1], (0, 1)


def basic_gate(rng, fn):
    """Commands for the rules registered for every gate."""
    import projectq.ops as o
    if 'arb1qubit' in fn and 'carb' not in fn:
        return fixed(rng), [1], (0, 0)
    if 'carb' in fn:
        return fixed(rng), [1], (1, 1)
    r = rng.random()
    if r < .06:
        return fixed(rng), [1], (4, 6)
    if r < .5:
        return fixed(rng), [1], (0, 3)
    if r < .6:
        return o.X, [1], (2, 6)
    cls = rng.choice(['SwapGate', 'SqrtSwapGate', 'QFTGate', 'QubitOperator', 'TimeEvolution', 'UniformlyControlledRy', 'Ph', 'EntangleGate'])
    g, s, _ = candidates(rng, cls)
    if sum(s) > 3:
        raise Skip
    return g, s, (0, 3)


def expected_matrix(gate, sizes):
    n = type(gate).__name__
    if n == 'QPE':
        na, k = sizes
        N = 1 << na
        m = gate.verif_matrix
        had = np.ones((1, 1))
        for _ in range(na):
            had = np.kron(had, ref.H)
        big = np.zeros((N << k, N << k), complex)
        full = np.zeros_like(big)
        for x in range(N):
            p = np.zeros((N, N))
            p[x, x] = 1
            if callable(m):
                u = np.eye(1 << k, dtype=complex)
                for b in range(na):
                    if (x >> b) & 1:
                        u = m(1 << b) @ u
            else:
                u = np.linalg.matrix_power(m, x)
            full += np.kron(u, p)
        e = np.eye(1 << k)
        return np.kron(e, ref.qft(na).conj().T) @ full @ np.kron(e, had)
    if n == 'QAA':
        return gate.verif_matrix
    return gate_matrix(gate, sizes)


class OneShot:
    """Filter refusing exactly the first gate command it is asked about after being armed."""

    def __init__(self):
        self.armed = False

    def __call__(self, eng, cmd):
        if self.armed and cmd_kind(cmd) in ('gate', 'barrier'):
            self.armed = False
            return False
        return True


def finish(ctx):
    """Every shipped rule is applied to the commands it is for."""
    for (cls, fn), (tried, refused) in sorted(getattr(ctx, 'tally', {}).items()):
        if tried >= 38 and tried == refused:
            ctx.violation('never-recognised', 'the rule %s for %s was offered %d commands and took none of them' % (fn, cls, tried))


def registry():
    import projectq.setups.decompositions as d
    return list(d.all_defined_decomposition_rules)


def rules(ctx, rng, idx):
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
    from projectq.cengines._replacer._replacer import NoGateDecompositionError
    from projectq.meta import Control
    from projectq.ops import get_inverse
    regs = registry()
    rule = regs[(idx * 7 + ctx.shard * 3) % len(regs)]
    cls, fn = rule.gate_class.__name__, rule.gate_decomposer.__name__
    c = candidates(rng, cls) or basic_gate(rng, fn)
    gate, sizes, (lo, hi) = c
    if type(gate).__name__ == 'TimeEvolution' and not gate.hamiltonian.terms:
        raise Skip
    nctl = rng.randint(lo, hi)
    if cls == 'Ph' and rng.random() < .3:
        nctl = lo
    neg = 'controlstate' in fn
    if neg:
        nctl = max(1, nctl)
    cstate = [rng.randint(0, 1) if neg else 1 for _ in range(nctl)]
    inverse = rng.random() < .35
    n = sum(sizes)
    if n + nctl > 7:
        raise Skip
    g = gate
    if inverse:
        g = get_inverse(gate)
    ctx.describe(dict(rule=fn, gate=str(gate), sizes=sizes, controls=cstate, inverse=inverse))
    f = OneShot()
    be = RefBackend(seed=1)
    eng = util.main_engine(be, [AutoReplacer(DecompositionRuleSet(rules=[rule])), InstructionFilter(f)])
    tally = ctx.__dict__.setdefault('tally', {}).setdefault((cls, fn), [0, 0])
    tally[0] += 1
    total = n + nctl + 1
    q = eng.allocate_qureg(total)
    order = list(range(total))
    rng.shuffle(order)
    q = [q[i] for i in order]
    eng.flush()
    ids = [x.id for x in q]
    gen = np.random.default_rng(rng.randrange(1 << 30))
    tids, cids = ids[:n], ids[n:n + nctl]
    nm = type(gate).__name__
    st = be.state
    if nm == 'StatePreparation':
        k = n
        other = gen.standard_normal(1 << (total - k)) + 1j * gen.standard_normal(1 << (total - k))
        other /= np.linalg.norm(other)
        zero = np.zeros(1 << k, complex)
        zero[0] = 1
        fin = np.array(gate.final_state)
        a, b = (fin, zero) if inverse else (zero, fin)
        # controlled on cids: other index bits 0..nctl-1 are the controls
        cm = (1 << nctl) - 1
        vin = np.zeros(1 << total, complex)
        vout = np.zeros(1 << total, complex)
        for j, amp in enumerate(other):
            on = (j & cm) == cm
            base = a if on else zero
            vin[j << k:(j + 1) << k] = amp * base
            vout[j << k:(j + 1) << k] = amp * (b if on else zero)
        st.names, st.psi = list(ids), vin
        want = vout
    else:
        st.names = list(ids)
        st.psi = gen.standard_normal(1 << total) + 1j * gen.standard_normal(1 << total)
        st.psi /= np.linalg.norm(st.psi)
        m = expected_matrix(gate, sizes)
        if inverse:
            m = m.conj().T
        exp = st.copy()
        exp.apply(m, tids, cids, cstate)
        want = exp.reorder(ids)
    regsq, i = [], 0
    for s in sizes:
        regsq.append(q[i:i + s])
        i += s
    before = len(be.log)
    f.armed = True
    try:
        arg = tuple(regsq) if len(regsq) > 1 else regsq[0]
        if nctl:
            with Control(eng, q[n:n + nctl], ''.join(map(str, cstate))):
                g | arg
        else:
            g | arg
    except NoGateDecompositionError:
        ctx.count('not_recognised')
        tally[1] += 1
        for x in q:
            x.id = -1
        raise Skip from None
    armed = f.armed
    f.armed = False
    eng.flush()
    if armed:      # nothing reached the replacer (identity time evolution, ...)
        ctx.count('no_command')
    else:
        ctx.count('recognised')
        ctx.count('rule:' + fn)
    if be.errors:
        raise Violation('rule-stream:' + fn, be.errors[0], log=be.log[before:][:60])
    if be.life.errors:
        raise Violation('rule-lifecycle:' + fn, be.life.errors[0], log=be.log[before:][:60])
    if set(be.state.names) != set(ids):
        raise Violation('rule-helpers:' + fn, 'helper qubits left allocated: %s' % sorted(set(be.state.names) ^ set(ids)), log=be.log[before:][:60])
    d = ref.phase_distance(be.state.reorder(ids), want)
    ctx.count('states_compared')
    ctx.count('commands_observed', len(be.log) - before)
    ctx.sig(fn, sizes, nctl, inverse, len(be.log) - before, str(gate)[:30] if idx % 3 == 0 else '')
    if idx < 2:
        ctx.sample(dict(rule=fn, gate=str(gate)[:60], controls=cstate, emitted=be.log[before:][:12]))
    for x in q:
        x.id = -1
    ctx.check(d < 1e-9, 'rule:' + fn, 'the replacement of %s%s on %s with %d controls deviates by %.3g' % ('inverse of ' if inverse else '', str(gate)[:80], sizes, nctl, d),
              log=be.log[before:][:80])


JOBS = {
    'rules': Job(rules, 8000, shards=6, time_quick=60),
}


