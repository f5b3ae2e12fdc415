"""C20: time evolution applies exp(-iHt) exactly."""
import copy
import math

import numpy as np

from vlib import ref
from vlib.harness import Job, Skip, Violation
from vlib.pq import RefBackend, cmd_repr

RULE = ('random Hamiltonians (single terms, commuting families, identity parts, zero, non-commuting, coefficients and times over fourteen orders of magnitude '
        'balanced to angles up to 60) applied on scattered, permuted registers with controls of both values, alone and in sequences with merging, inversion '
        'and compute/uncompute; emulated on both simulators and decomposed for a backend without time evolution. Oracle: matrix exponential by '
        'eigendecomposition on the full register; non-commuting Hamiltonians must be refused when they have to be decomposed')
ASSUMPTIONS = ['up to six qubits, |H t| up to 60', 'accuracy 1e-9']
MIN = dict(evolutions_compared=600, decomposed=300, refused_noncommuting=50, laws=1500, rejected=300)


def hamiltonian(rng, n, kind=None):
    """{term: float} on qubits 0..n-1 with coefficients of order one."""
    kind = kind or rng.choice(['single', 'single', 'commuting', 'commuting', 'z', 'stabilizer', 'random', 'random', 'identity', 'id+', 'zero', 'dense'])
    c = lambda: rng.choice([1.0, -1.0, 0.5, rng.uniform(-2, 2)])        # noqa
    pauli = lambda: tuple((i, rng.choice('XYZ')) for i in range(n) if rng.random() < .6) or ((rng.randrange(n), rng.choice('XYZ')),)   # noqa
    if kind == 'single':
        h = {pauli(): c()}
    elif kind == 'identity':
        h = {(): c()}
    elif kind == 'zero':
        h = {}
    elif kind == 'z':
        basis = [rng.choice('XYZ') for _ in range(n)]
        h = {}
        for _ in range(rng.randint(1, 5)):
            h[tuple((i, basis[i]) for i in range(n) if rng.random() < .5)] = c()
    elif kind == 'stabilizer' and n >= 2:
        a, b = sorted(rng.sample(range(n), 2))
        h = {((a, p), (b, p)): c() for p in 'XYZ' if rng.random() < .8}
        if rng.random() < .3:
            h[()] = c()
    elif kind == 'commuting':
        h = {}
        for _ in range(8):
            p = pauli()
            if all(commute(p, q) for q in h):
                h[p] = c()
    elif kind == 'dense':
        h = {pauli(): c() for _ in range(rng.randint(4, 9))}
    else:
        h = {pauli(): c() for _ in range(rng.randint(2, 4))}
        if rng.random() < .4:
            h[()] = c()
        if kind == 'id+':
            h[()] = c()
    return h


def commute(p, q):
    a, b = dict(p), dict(q)
    return sum(1 for i in a if i in b and a[i] != b[i]) % 2 == 0


def noncommuting(h, t):
    """Size of the largest commutator of two terms of t*h."""
    return max([0.] + [2 * t * t * abs(h[p] * h[q]) for p in h for q in h if not commute(p, q)])


def balanced(rng, h):
    """Scales coefficients and time in opposite directions; angle of the largest term as drawn."""
    angle = rng.choice([1e-9, .01, .3, 1., math.pi, 2.5, 7., rng.uniform(0, 6)] if rng.random() < .95 else [25., 60.])
    s = 10 ** rng.choice([0, 0, rng.uniform(-7, 7), rng.uniform(-12, 12)])
    h = {t: c * s for t, c in h.items()}
    t = angle / s * rng.choice([1, -1])
    if rng.random() < .1:
        t = rng.choice([0, 0.0, 1, -2, 3]) if s == 1 else t
    return t, h


def operator(rng, h, relabel=lambda i: i):
    from projectq.ops import QubitOperator
    op = QubitOperator()
    items = list(h.items())
    rng.shuffle(items)
    for t, c in items:
        t = tuple((relabel(i), p) for i, p in t)
        k = rng.choice([c, complex(c), np.float64(c)])
        op += QubitOperator(t, k)
    return op


def evolution(h, t, n):
    return ref.expm_herm(ref.pauli_terms_matrix(h, n), t) if h else np.eye(1 << n)


class Scene:
    """Qubits in a random product-entangled state and the exact state next to it."""

    def __init__(self, ctx, rng, eng, nq):
        from projectq.ops import CNOT, H, Ry, Rz
        self.ctx, self.rng, self.eng, self.n = ctx, rng, eng, nq
        self.q = [eng.allocate_qubit()[0] for _ in range(nq)]
        self.model = ref.State()
        for i in range(nq):
            self.model.alloc(i)
        for i, q in enumerate(self.q):
            a, b = rng.uniform(0, 3), rng.uniform(0, 6)
            Ry(a) | q
            Rz(b) | q
            self.model.apply(ref.rot(ref.Y, a), [i])
            self.model.apply(ref.rot(ref.Z, b), [i])
            if i:
                CNOT | (self.q[i - 1], q)
                self.model.apply(ref.X, [i], [i - 1])

    def apply(self, maxn=4, kind=None, gate=None):
        from projectq.meta import Control
        from projectq.ops import TimeEvolution
        rng = self.rng
        nc = rng.choice([0, 0, 0, 1, 2]) if self.n > 2 else rng.choice([0, 0, 1]) if self.n > 1 else 0
        order = rng.sample(range(self.n), self.n)
        ctrls, rest = order[:nc], order[nc:]
        width = rng.randint(1, min(maxn, len(rest)))
        act = rest[:width]
        pad = rest[width:] if rng.random() < .5 else []
        reg = act + pad
        rng.shuffle(reg)                # the register the gate is applied to
        pos = [reg.index(a) for a in act]
        h = hamiltonian(rng, width, kind)
        t, h = balanced(rng, h)
        g = TimeEvolution(t, operator(rng, h, lambda i: pos[i]))
        cs = [rng.choice([1, 1, 0]) for _ in ctrls]
        text = 'exp(-i %r %s) on %s controls %s=%s' % (t, {k: v for k, v in h.items()}, [reg[p] for p in pos], ctrls, cs)
        qs = [self.q[i] for i in reg]
        arg = qs[0] if len(qs) == 1 and rng.random() < .5 else rng.choice([qs, (qs,)])

        def go():
            if ctrls:
                with Control(self.eng, [self.q[i] for i in ctrls], ctrl_state=''.join(map(str, cs))):
                    g | arg
            else:
                g | arg
        # exact effect (register positions -> qubits act[i])
        m = evolution(h, t, width)

        def effect(inverse=False):
            self.model.apply(m.conj().T if inverse else m, act, ctrls, cs)
        return go, effect, text, h, g, act

    def compare(self, vec, ids, key, what, tol=1e-9):
        """vec: amplitudes in the order of qubits 0..n-1 (0 least significant)."""
        d = ref.phase_distance(vec, self.model.reorder(list(range(self.n))))
        self.ctx.count('evolutions_compared')
        if not d < tol:
            raise Violation(key, 'state differs from exp(-iHt) by %.3g: %s' % (d, what))


def exact_phase(vec, want):
    return float(np.abs(vec - want).max())


def case_sim(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet
    import projectq.setups.decompositions as dec
    sim = Simulator(gate_fusion=rng.random() < .5, rnd_seed=1)
    eng = MainEngine(backend=sim, engine_list=[AutoReplacer(DecompositionRuleSet(modules=[dec]))], verbose=True)
    s = Scene(ctx, rng, eng, rng.randint(1, 6))
    texts = []
    for _ in range(rng.choice([1, 1, 3])):
        go, effect, text, h, g, act = s.apply(maxn=5)
        texts.append(text)
        ctx.describe(dict(steps=texts))
        go()
        effect()
        eng.flush()
        m, psi = sim.cheat()
        ids = [q.id for q in s.q]
        st = np.array(psi)
        # order of the simulator -> order of the program
        perm = np.zeros(len(st), complex)
        for i in range(len(st)):
            j = 0
            for k, qid in enumerate(ids):
                j |= (i >> m[qid] & 1) << k
            perm[j] = st[i]
        # relative phases to the rest of the program must be right as well: compare including the global phase
        d = np.abs(perm - s.model.reorder(list(range(s.n)))).max()
        ctx.count('evolutions_compared')
        if not d < 1e-9:
            raise Violation('emulated', 'state differs from exp(-iHt) by %.3g: %s' % (d, texts))
        ctx.sig('sim', len(h), len(act), text.count('c'), s.n)
    for q in s.q:
        q.id = -1


def no_evolution(cmd):
    return type(cmd.gate).__name__ not in ('TimeEvolution',)


def case_decompose(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer
    from projectq.cengines._replacer._replacer import NoGateDecompositionError
    import projectq.setups.decompositions as dec
    be = RefBackend(seed=idx, available=no_evolution)
    pre = [LocalOptimizer(rng.choice([1, 5, 20]))] if rng.random() < .5 else []
    eng = MainEngine(backend=be, engine_list=pre + [AutoReplacer(DecompositionRuleSet(modules=[dec])), LocalOptimizer(rng.choice([1, 10]))], verbose=True)
    s = Scene(ctx, rng, eng, rng.randint(1, 6))
    texts = []
    try:
        for _ in range(rng.choice([1, 1, 3])):
            go, effect, text, h, g, act = s.apply()
            texts.append(text)
            ctx.describe(dict(steps=texts, optimizer=bool(pre)))
            size = noncommuting(h, g.time)
            if size == 0:
                go()
                effect()
                eng.flush()
            elif 1e-10 < size < 1e-8:
                raise Skip('borderline')
            else:
                if pre:
                    eng.flush()
                n = len(be.log)
                try:
                    go()
                    eng.flush()
                except NoGateDecompositionError:
                    ctx.count('refused_noncommuting')
                    return
                if size > 1e-8:
                    raise Violation('noncommuting-decomposed', 'the terms do not commute, yet no error: %s' % text, log=be.log[n:][:30])
                effect()
        if be.errors or be.refused or be.life.errors:
            raise Violation('decomposed:stream', (be.errors + be.refused + be.life.errors)[0], log=be.log[-40:])
        ids = [q.id for q in s.q]
        vec = be.state.reorder(ids)
        d = np.abs(vec - s.model.reorder(list(range(s.n)))).max()
        ctx.count('evolutions_compared')
        ctx.count('decomposed')
        if not d < 1e-9:
            raise Violation('decomposed', 'state differs from exp(-iHt) by %.3g: %s' % (d, texts), log=be.log[-40:])
        ctx.sig('dec', len(h), len(act), len(texts))
    finally:
        for q in s.q:
            q.id = -1


def case_sequence(ctx, rng, idx):
    """Merging, inverting, undoing: the net effect stays exact."""
    from projectq import MainEngine
    from projectq.cengines import LocalOptimizer
    from projectq.meta import Compute, Dagger, Uncompute, Loop
    from projectq.ops import TimeEvolution, get_inverse
    be = RefBackend(seed=idx)
    eng = MainEngine(backend=be, engine_list=[LocalOptimizer(rng.choice([2, 5, 30])), LocalOptimizer(5)], verbose=True)
    s = Scene(ctx, rng, eng, rng.randint(1, 5))
    texts = []
    n0 = None
    for _ in range(rng.randint(1, 5)):
        how = rng.choice(['twice', 'inverse', 'dagger', 'compute', 'scaled', 'loop', 'once'])
        go, effect, text, h, g, act = s.apply(maxn=3)
        texts.append(how + ': ' + text)
        ctx.describe(dict(steps=texts))
        if how == 'once':
            go()
            effect()
        elif how == 'twice':
            go(), go()
            effect(), effect()
        elif how == 'loop':
            with Loop(eng, 3):
                go()
            effect(), effect(), effect()
        elif how == 'dagger':
            with Dagger(eng):
                go()
            effect(True)
        elif how == 'inverse':
            go()
            with Dagger(eng):
                go()
        elif how == 'compute':
            from projectq.ops import X
            q = rng.randrange(s.n)
            with Compute(eng):
                go()
            X | s.q[q]
            Uncompute(eng)
            effect()
            s.model.apply(ref.X, [q])
            effect(True)
        else:
            # same terms, proportional coefficients, other time
            qs = rng.sample(range(s.n), min(s.n, 2))
            hh = hamiltonian(rng, len(qs), 'random')
            k = rng.choice([2., -1., .5, 1 + 1e-12, -3.7, 1 + 1e-6])
            for f, t in ((1., .4), (k, rng.choice([.3, -.4, -.4 / k]))):
                h2 = {p: c * f for p, c in hh.items()}
                TimeEvolution(t, operator(rng, h2)) | [s.q[i] for i in qs]
                s.model.apply(evolution(h2, t, len(qs)), qs)
    eng.flush()
    if be.errors or be.life.errors:
        raise Violation('sequence:stream', (be.errors + be.life.errors)[0], log=be.log[-40:])
    d = np.abs(be.state.reorder([q.id for q in s.q]) - s.model.reorder(list(range(s.n)))).max()
    ctx.count('evolutions_compared')
    if not d < 1e-9:
        raise Violation('sequence', 'state differs by %.3g: %s' % (d, texts), log=be.log[-40:])
    for q in s.q:
        q.id = -1
    ctx.sig('seq', *sorted({t.split(':')[0] for t in texts}))


def matrix_of(g, n):
    return evolution({t: c for t, c in g.hamiltonian.terms.items()}, g.time, n)


def case_laws(ctx, rng, idx):
    from projectq.ops import NotMergeable, QubitOperator, TimeEvolution
    for _ in range(4):
        n = rng.randint(1, 3)
        h = hamiltonian(rng, n)
        t, h = balanced(rng, h)
        op = operator(rng, h)
        snap = dict(op.terms)
        g = TimeEvolution(t, op)
        if any(type(c) is not float for c in g.hamiltonian.terms.values()):
            raise Violation('law:float', 'coefficients %s are not floats' % g.hamiltonian.terms)
        m = evolution(h, t, n)
        if np.abs(matrix_of(g, n) - m).max() > 1e-9:
            raise Violation('law:stored', '%s stores another evolution' % g)
        inv = g.get_inverse()
        if np.abs(matrix_of(inv, n) @ m - np.eye(1 << n)).max() > 1e-9:
            raise Violation('law:inverse', 'inverse of %s is %s' % (g, inv))
        # a second evolution: unrelated, same terms, proportional, nearly proportional
        how = rng.choice(['other', 'same', 'scaled', 'near', 'far', 'zero'])
        k = rng.choice([2., -1., .25, -3.7, 1e3, 1e-3])
        if how == 'other':
            h2 = hamiltonian(rng, n)
        else:
            h2 = {p: c * k for p, c in h.items()}
            if h2 and how in ('near', 'far'):
                p = rng.choice(list(h2))
                h2[p] *= 1 + (1e-11 if how == 'near' else 1e-4) * rng.choice([1, -1])
            if h2 and how == 'zero':
                h2[rng.choice(list(h2))] = 0.0
            if how == 'same':
                h2 = dict(h)
        t2 = rng.choice([t, -t, .3, 1.])
        if h2 and max(map(abs, h2.values())) * abs(t2) > 100:
            t2 = 50 / max(map(abs, h2.values()))
        g2 = TimeEvolution(t2, operator(rng, h2))
        m2 = evolution(h2, t2, n)
        snap2 = dict(g2.hamiltonian.terms), dict(g.hamiltonian.terms)
        try:
            r = g.get_merged(g2)
        except NotMergeable:
            if how in ('same', 'scaled') and set(h) == set(h2) and h and all(h.values()) and all(h2.values()):
                raise Violation('law:merge-refused', '%s and %s have proportional Hamiltonians but do not merge' % (g, g2))
        else:
            d = np.abs(matrix_of(r, n) - m2 @ m).max()
            if d > 1e-6:
                raise Violation('law:merge', '%s merged with %s gives %s: differs by %.3g' % (g, g2, r, d))
        if (dict(g2.hamiltonian.terms), dict(g.hamiltonian.terms)) != snap2:
            raise Violation('law:operands', 'merging changed its operands')
        for other in (QubitOperator('X0'), 5, None):
            try:
                g.get_merged(other)
            except NotMergeable:
                pass
            else:
                raise Violation('law:merge-type', 'merged with %r' % (other,))
        # later changes of the caller's operator do not reach the gate
        op *= 2
        op += QubitOperator('Y0', .7)
        if np.abs(matrix_of(g, n) - m).max() > 1e-9:
            raise Violation('law:aliasing', 'changing the operator afterwards changes the gate')
        ctx.count('laws', 3)
        ctx.sig('law', how, len(h), n)


class Weird:
    pass


def case_reject(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.ops import QubitOperator, TimeEvolution
    from projectq.ops._time_evolution import NotHermitianOperatorError
    h = QubitOperator('X0 Z1', .5)

    def must(what, f, errs):
        try:
            r = f()
        except errs:
            ctx.count('rejected')
        else:
            raise Violation('accepted:' + what, 'gives %s' % (r,))
    for t in (1j, '1', None, [1.], complex(1, 0), Weird()):
        must('time %r' % (t,) if not isinstance(t, Weird) else 'time object', lambda: TimeEvolution(t, h), TypeError)
    for x in ('X0', None, 1, {(): 1.}, ((0, 'X'),), [h], Weird()):
        must('hamiltonian of type %s' % type(x).__name__, lambda: TimeEvolution(1., x), TypeError)
    for c in (1j, .5 + 1e-3j, complex(1, -1e-9), -2j):
        must('complex coefficient', lambda: TimeEvolution(1., h + QubitOperator(rng.choice(['Y0', '', 'X1']), c)), NotHermitianOperatorError)
    be = RefBackend(seed=idx)
    eng = MainEngine(backend=be, engine_list=[], verbose=True)
    q = eng.allocate_qureg(3)
    n = len(be.log)
    must('two registers', lambda: TimeEvolution(1., h) | (q[:2], q[2:]), TypeError)
    must('short register', lambda: TimeEvolution(1., h) | q[:1], ValueError)
    must('index beyond register', lambda: TimeEvolution(1., QubitOperator('X0 Y3')) | q, ValueError)
    if len(be.log) != n:
        raise Violation('rejected-but-sent', str(be.log[n:]))
    # the zero Hamiltonian is the identity
    TimeEvolution(1.3, QubitOperator()) | q
    TimeEvolution(1.3, h - h) | q
    eng.flush()
    if np.abs(be.state.reorder([x.id for x in q])[0] - 1) > 1e-12:
        raise Violation('zero-hamiltonian', 'the state changed')
    for x in q:
        x.id = -1
    ctx.sig('reject', idx % 7)


JOBS = dict(
    sim=Job(case_sim, 350, 8000, variant='rel', shards=2, time_quick=60),
    pysim=Job(case_sim, 120, 2500, shards=2, time_quick=60),
    decompose=Job(case_decompose, 700, 15000, shards=2, time_quick=60),
    sequence=Job(case_sequence, 400, 8000, shards=1, time_quick=60),
    laws=Job(case_laws, 600, 10000, shards=1, time_quick=60),
    reject=Job(case_reject, 30, 200, shards=1),
)
