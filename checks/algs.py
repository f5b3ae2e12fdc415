"""Textbook algorithms whose outcome is certain, run through whole compiler chains (a job of C12)."""
import math

import numpy as np

from vlib.harness import Violation


def setups(rng, big, plain):
    """(name, engine list); `plain`: the simulator knows every gate of the algorithm"""
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter, LocalOptimizer, TagRemover
    from projectq.ops import CNOT, CZ, H, Rx, Ry, Rz, S, T, X, BasicMathGate, ClassicalInstructionGate
    from projectq.setups import grid, linear, restrictedgateset, trapped_ion_decomposer
    import projectq.libs.math
    import projectq.setups.decompositions

    def rules():
        return DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])

    def low(eng, cmd):
        n = sum(len(r) for r in cmd.all_qubits)
        if isinstance(cmd.gate, ClassicalInstructionGate):
            return True
        return n <= rng_n and not isinstance(cmd.gate, BasicMathGate) and hasattr(cmd.gate, 'matrix') and '0' not in cmd.control_state
    rng_n = rng.choice([2, 3])
    one = rng.choice([(Rz, H), (Rz, Ry), (Rz, Rx), (Rz, Ry, X, H, S, T)])
    two = (CNOT,) if one == (Rz, Ry) else rng.choice([(CNOT,), (CNOT,), (CNOT, CZ)])
    if one == (Rz, Ry):
        one = (Rz, Ry, H)
    L = [('none', lambda: []), ('optimizer', lambda: [LocalOptimizer(rng.choice([2, 5, 20]))])] if plain else []
    L += [('rules', lambda: [LocalOptimizer(rng.choice([2, 5, 20])), AutoReplacer(rules()), TagRemover()]),
         ('rules', lambda: [AutoReplacer(rules()), TagRemover(), InstructionFilter(low), LocalOptimizer(rng.choice([1, 5]))]),
         ('rules', lambda: [AutoReplacer(rules()), TagRemover(), LocalOptimizer(3), AutoReplacer(rules()), InstructionFilter(low), TagRemover(), LocalOptimizer(5)]),
         ('restricted', lambda: restrictedgateset.get_engine_list(one_qubit_gates=one, two_qubit_gates=two))]
    if not big:
        L += [('linear', lambda: linear.get_engine_list(num_qubits=rng.randint(9, 10), cyclic=rng.random() < .5, one_qubit_gates=one, two_qubit_gates=two)),
              ('grid', lambda: grid.get_engine_list(num_rows=3, num_columns=rng.choice([3, 4]), one_qubit_gates=one, two_qubit_gates=two)),
              ('ion', trapped_ion_decomposer.get_engine_list)]
    name, f = rng.choice(L)
    return name, f()


def read(eng, qs):
    from projectq.ops import All, Measure
    All(Measure) | qs
    eng.flush()
    return [int(x) for x in qs]


def value(bits):
    return sum(b << i for i, b in enumerate(bits))


def rotations(rng):
    from projectq.ops import H, R, Rx, Ry, Rz, T
    return [rng.choice([H, T, Rx(rng.uniform(.1, 3)), Ry(rng.uniform(.1, 3)), Rz(rng.uniform(.1, 3)), R(rng.uniform(.1, 3))]) for _ in range(rng.randint(1, 4))]


def bernstein_vazirani(eng, rng):
    from projectq.meta import Compute, Control, Uncompute
    from projectq.ops import All, H, X, Z
    n = rng.randint(2, 5)
    s = [rng.randint(0, 1) for _ in range(n)]
    q, a = eng.allocate_qureg(n), eng.allocate_qubit()
    X | a
    H | a
    with Compute(eng):
        All(H) | q
    for x, b in zip(q, s):
        if b:
            with Control(eng, x):
                X | a
    Uncompute(eng)
    H | a
    return read(eng, q + a), s + [1], q + a


def deutsch_jozsa(eng, rng):
    from projectq.meta import Control
    from projectq.ops import All, H, X, Z
    n = 3
    q = eng.allocate_qureg(n)
    kind = rng.choice(['constant', 'balanced'])
    All(H) | q
    if kind == 'constant':
        if rng.random() < .5:
            X | q[0]
            Z | q[0]
            X | q[0]
            Z | q[0]            # a global phase
    else:
        # majority-free balanced functions: x_i xor (x_j and x_k), negated inputs
        i, j, k = rng.sample(range(n), 3)
        Z | q[i]
        with Control(eng, q[j], ctrl_state=rng.randint(0, 1)):
            if rng.random() < .7:
                Z | q[k]
    All(H) | q
    r = read(eng, q)
    return [any(r)], [kind == 'balanced'], q


def teleport(eng, rng):
    from projectq.meta import Dagger
    from projectq.ops import CNOT, H, Measure, X, Z
    a, b, c = eng.allocate_qubit(), eng.allocate_qubit(), eng.allocate_qubit()
    prep = rotations(rng)
    for g in prep:
        g | a
    H | b
    CNOT | (b, c)
    CNOT | (a, b)
    H | a
    Measure | a
    Measure | b
    eng.flush()
    if int(b[0]):
        X | c
    if int(a[0]):
        Z | c
    with Dagger(eng):
        for g in prep:
            g | c
    return read(eng, c), [0], a + b + c


def grover(eng, rng):
    """One iteration finds one marked element of four, three iterations of 8 leave a known distribution: only n = 2 is exact."""
    from projectq.meta import Compute, Control, Loop, Uncompute
    from projectq.ops import All, H, X, Z
    q, a = eng.allocate_qureg(2), eng.allocate_qubit()
    m = rng.randrange(4)
    All(H) | q
    X | a
    H | a
    with Loop(eng, 1 if rng.random() < .5 else 4):      # period 3: 1 and 4 iterations find it
        with Compute(eng):
            for i in range(2):
                if not (m >> i) & 1:
                    X | q[i]
        with Control(eng, q):
            X | a
        Uncompute(eng)
        with Compute(eng):
            All(H) | q
            All(X) | q
        with Control(eng, q[0]):
            Z | q[1]
        Uncompute(eng)
    H | a
    X | a
    return [value(read(eng, q))] + read(eng, a), [m, 0], q + a


def phase_estimation(eng, rng):
    from projectq.meta import Control
    from projectq.ops import All, H, QFT, R, X, get_inverse, Swap
    n = rng.randint(2, 4)
    k = rng.randrange(1 << n)
    t, e = eng.allocate_qureg(n), eng.allocate_qubit()
    X | e
    All(H) | t
    for i in range(n):
        with Control(eng, t[i]):
            for _ in range(1 << i if rng.random() < .5 else 1):
                pass
            R(2 * math.pi * k * (1 << i) / (1 << n)) | e
    # the QFT of this library leaves the order of its qubits reversed
    get_inverse(QFT) | t[::-1]
    r = read(eng, t)
    want = [(k >> (n - 1 - i)) & 1 for i in range(n)]
    return r, want, t + e


def draper(eng, rng):
    from projectq.meta import Compute, Control, Uncompute
    from projectq.ops import QFT, R, X
    n = rng.randint(2, 3)
    a, b = rng.randrange(1 << n), rng.randrange(1 << n)
    x, y = eng.allocate_qureg(n), eng.allocate_qureg(n)
    for i in range(n):
        if (a >> i) & 1:
            X | x[i]
        if (b >> i) & 1:
            X | y[i]
    with Compute(eng):
        QFT | y
    for i in range(n):
        for j in range(i + 1):
            with Control(eng, x[j]):
                R(math.pi / (1 << (i - j))) | y[i]
    Uncompute(eng)
    return [value(read(eng, x)), value(read(eng, y))], [a, (a + b) % (1 << n)], x + y


def superdense(eng, rng):
    from projectq.ops import CNOT, H, X, Z
    a, b = eng.allocate_qubit(), eng.allocate_qubit()
    m = [rng.randint(0, 1), rng.randint(0, 1)]
    H | a
    CNOT | (a, b)
    if m[1]:
        X | a
    if m[0]:
        Z | a
    CNOT | (a, b)
    H | a
    return read(eng, a + b), m, a + b


def bit_flip_code(eng, rng):
    from projectq.meta import Control, Dagger
    from projectq.ops import CNOT, H, Toffoli, X, Y, Z, All
    q = eng.allocate_qureg(3)
    phase = rng.random() < .5
    prep = rotations(rng)
    for g in prep:
        g | q[0]
    CNOT | (q[0], q[1])
    CNOT | (q[0], q[2])
    if phase:
        All(H) | q
    err = rng.randrange(4)
    if err < 3:
        (Z if phase else X) | q[err]
    if phase:
        All(H) | q
    CNOT | (q[0], q[1])
    CNOT | (q[0], q[2])
    Toffoli | (q[1], q[2], q[0])
    with Dagger(eng):
        for g in prep:
            g | q[0]
    return read(eng, q), {3: [0, 0, 0], 0: [0, 1, 1], 1: [0, 1, 0], 2: [0, 0, 1]}[err], q


def repeat_until_success(eng, rng):
    """Measure and repeat: a GHZ state is projected, repaired and disentangled."""
    from projectq.ops import CNOT, H, Measure, X
    q, a = eng.allocate_qureg(2), eng.allocate_qubit()
    n = 0
    while True:
        n += 1
        H | q[0]
        CNOT | (q[0], q[1])
        CNOT | (q[1], a)
        Measure | a
        eng.flush()
        if int(a[0]):
            break
        if n > 60:
            raise Violation('algorithm:rus', 'an outcome of probability 1/2 was not seen in 60 trials')
    return read(eng, q), [1, 1], q + a


def swap_test(eng, rng):
    from projectq.meta import Control
    from projectq.ops import H, Swap
    a, b, c = eng.allocate_qubit(), eng.allocate_qubit(), eng.allocate_qubit()
    for g in rotations(rng):
        g | a
        g | b
    H | c
    with Control(eng, c):
        Swap | (a, b)
    H | c
    return read(eng, c), [0], a + b + c


def prepare_and_back(eng, rng):
    from projectq.meta import Control, Dagger
    from projectq.ops import StatePreparation
    n = rng.randint(1, 3)
    v = np.array([rng.choice([0, 1, 1j, rng.uniform(-1, 1)]) for _ in range(1 << n)], complex)
    if not np.linalg.norm(v) > .1:
        v[0] = 1
    v = (v / np.linalg.norm(v)).tolist()
    q = eng.allocate_qureg(n)
    StatePreparation(v) | q
    with Dagger(eng):
        StatePreparation(v) | q
    return read(eng, q), [0] * n, q


def evolve_and_back(eng, rng):
    from projectq.ops import All, H, QubitOperator, TimeEvolution
    n = rng.randint(2, 3)
    q = eng.allocate_qureg(n)
    ham = QubitOperator('X0 Y1', rng.uniform(-1, 1)) if rng.random() < .5 else QubitOperator('Z0 Z1', .5) + QubitOperator('Z%d' % (n - 1), rng.uniform(-1, 1))
    t = rng.uniform(.1, 3)
    All(H) | q
    TimeEvolution(t, ham) | q
    TimeEvolution(-t, ham) | q
    All(H) | q
    return read(eng, q), [0] * n, q


def order_finding(eng, rng, n_work=3, N=7):
    """Orders which are powers of two give exact phases."""
    from projectq.libs.math import MultiplyByConstantModN
    from projectq.meta import Control
    from projectq.ops import H, Measure, R, X
    N, a, order = rng.choice([(3, 2, 2), (5, 2, 4), (5, 3, 4), (5, 4, 2), (15, 2, 4), (15, 7, 4), (15, 11, 2), (15, 14, 2), (15, 13, 4)][:4 if n_work < 4 else 9])
    n = int(math.ceil(math.log(N, 2)))
    bits = 3
    x, c = eng.allocate_qureg(n), eng.allocate_qubit()
    X | x[0]
    m = []
    for k in range(bits):
        H | c
        with Control(eng, c):
            MultiplyByConstantModN(pow(a, 1 << (bits - 1 - k), N), N) | x
        for i in range(k):
            if m[i]:
                R(-math.pi / (1 << (k - i))) | c
        H | c
        Measure | c
        eng.flush()
        m.append(int(c[0]))
        if m[k]:
            X | c
    y = sum(b << i for i, b in enumerate(m))
    return [y * order % (1 << bits), value(read(eng, x)) in {pow(a, i, N) for i in range(order)}], [0, True], x + c


def modular(eng, rng):
    from projectq.libs.math import AddConstant, AddConstantModN, SubConstant, SubConstantModN
    from projectq.meta import Control
    from projectq.ops import X
    n = rng.randint(2, 3)
    N = rng.randint(2, 1 << n)
    v, c, d = rng.randrange(N), rng.randrange(N), rng.randrange(N)
    on = rng.randint(0, 1)
    q, k = eng.allocate_qureg(n), eng.allocate_qubit()
    for i in range(n):
        if (v >> i) & 1:
            X | q[i]
    if on:
        X | k
    with Control(eng, k):
        AddConstantModN(c, N) | q
        SubConstantModN(d, N) | q
    w = (v + c - d) % N if on else v
    AddConstant(5) | q
    SubConstant(3) | q
    return [value(read(eng, q))] + read(eng, k), [(w + 2) % (1 << n), on], q + k


PLAIN = {'bernstein_vazirani', 'deutsch_jozsa', 'teleport', 'grover', 'superdense', 'bit_flip_code', 'repeat_until_success', 'swap_test',
         'order_finding', 'modular', 'evolve_and_back'}
SMALL = [bernstein_vazirani, deutsch_jozsa, teleport, grover, phase_estimation, draper, superdense, bit_flip_code, repeat_until_success, swap_test,
         prepare_and_back, evolve_and_back]
BIG = [order_finding, modular]


def case(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import Simulator
    f = (SMALL + BIG)[idx % (len(SMALL) + len(BIG))]
    name, el = setups(rng, f in BIG, f.__name__ in PLAIN)
    if f in BIG and name in ('none', 'optimizer') and rng.random() < .5:
        kw = dict(n_work=4)
    else:
        kw = {}
    eng = MainEngine(Simulator(gate_fusion=rng.random() < .5, rnd_seed=rng.randrange(1 << 30)), el)
    ctx.describe(dict(algorithm=f.__name__, engines=name))
    kept = []
    try:
        for rep in range(rng.choice([1, 1, 2])):
            if f is order_finding:
                got, want, qs = f(eng, rng, **kw)
            else:
                got, want, qs = f(eng, rng)
            kept.append(qs)
            if got != want:
                raise Violation('algorithm:' + f.__name__, '%s through %s gives %s, certain is %s' % (f.__name__, name, got, want))
            ctx.count('algorithms')
            ctx.sig('alg', f.__name__, name, str(want))
            if rep == 0 and (name in ('linear', 'grid') or rng.random() < .5):
                from projectq.ops import All, Measure
                # the engines are used again after a release
                All(Measure) | qs
                del qs[:]
                kept = []
                eng.flush()
    finally:
        for r in kept:
            for x in r:
                x.id = -1
