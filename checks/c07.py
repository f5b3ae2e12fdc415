"""C07: arithmetic executed directly by a simulator moves every amplitude to the exact integer result."""
import math

import numpy as np

from vlib import ref
from vlib.harness import Job, Violation

RULE = ('arithmetic gate (shipped or user-defined function) on a random superposition inside its documented domain, on registers of random, '
        'shuffled and interleaved qubits, with 0-3 controls of either sign, spectators, Dagger and with/without fused gates pending; all amplitudes '
        'compared; non-trivial by gate, widths, controls, constants (negative, zero, wider than the register, beyond 32 bits)')
ASSUMPTIONS = ['domains from the docstrings (operands below the modulus, equal widths, zero remainder)', 'tolerance 1e-9',
               'constants up to 62 bits', 'up to 19 qubits (20 in the thorough tier)']
MIN = dict(amplitudes_compared=20000, gates_emulated=400)


def constant(rng, w):
    M = 1 << w
    return rng.choice([0, 1, -1, M - 1, M, -M, M + 3, 2**31 - 1, 2**31, -2**31, 2**32 + 5, 2**40 + 3, -2**61 + 7, 2**62 - 1,
                       rng.randrange(M), rng.randrange(-M, 2 * M), rng.randrange(-2**60, 2**60)])


class UserGate:
    pass


def user_gate(table_or_fun, arity, style):
    from projectq.ops import BasicMathGate
    if style == 'init':
        return BasicMathGate(table_or_fun)

    class FixedPoint(BasicMathGate):
        def __init__(self):
            super().__init__(None)

        def get_math_function(self, qubits):
            assert len(qubits) == arity

            def f(a):
                return list(table_or_fun(*a))
            return f
    return FixedPoint()


def make(rng, budget, wmax=8):
    """name, gate, register widths, function on value tuples, domain predicate"""
    import projectq.libs.math as m
    k = rng.choice(['addc', 'addc', 'subc', 'addmod', 'submod', 'mulmod', 'add', 'addcarry', 'sub', 'cmp', 'mul', 'div', 'user1', 'user2', 'user3',
                    'userwild'])
    w = rng.randint(1, min(budget, wmax)) if wmax == 8 else rng.randint(max(1, budget - 2), budget)
    any_ = lambda v: True
    if k in ('addc', 'subc'):
        a = constant(rng, w)
        g = m.AddConstant(a) if k == 'addc' else m.SubConstant(a)
        s = 1 if k == 'addc' else -1
        return k, g, [w], lambda v: [v[0] + s * a], any_
    if k in ('addmod', 'submod', 'mulmod'):
        N = rng.randint(1, 1 << w) if rng.random() < .8 else rng.choice([1 << w, max(1, (1 << w) - 1)])
        if k == 'addmod':
            a = rng.randrange(N)
            return k, m.AddConstantModN(a, N), [w], lambda v: [(v[0] + a) % N], lambda v: v[0] < N
        if k == 'submod':
            a = rng.randrange(N)
            return k, m.SubConstantModN(a, N), [w], lambda v: [(v[0] - a) % N], lambda v: v[0] < N
        cand = [a for a in range(N) if math.gcd(a, N) == 1] or [1]
        a = rng.choice(cand)
        return k, m.MultiplyByConstantModN(a, N), [w], lambda v: [(v[0] * a) % N], lambda v: v[0] < N
    w2 = max(1, min(w, (budget - 1) // 2))
    if k == 'add':
        return k, m.AddQuantum, [w2, w2], lambda v: [v[0], v[0] + v[1]], any_
    if k == 'addcarry':
        return k, m.AddQuantum, [w2, w2, 1], lambda v: [v[0], v[0] + v[1], v[2] ^ ((v[0] + v[1]) >> w2)], any_
    if k == 'sub':
        return k, m.SubtractQuantum, [w2, w2], lambda v: [v[0], v[1] - v[0]], any_
    if k == 'cmp':
        return k, m.ComparatorQuantum, [w2, w2, 1], lambda v: [v[0], v[1], v[2] ^ int(v[0] > v[1])], any_
    if k == 'mul':
        w4 = max(1, (budget - 1) // 4)
        w4 = rng.randint(1, w4)
        return k, m.MultiplyQuantum, [w4, w4, 2 * w4 + 1], lambda v: [v[0], v[1], v[2] + v[0] * v[1]], any_
    if k == 'div':
        w3 = rng.randint(1, max(1, budget // 3))
        return (k, m.DivideQuantum, [w3] * 3, lambda v: [v[0] % v[2], v[0] // v[2], v[2]],
                lambda v: v[1] == 0 and 0 < v[2] <= v[0])
    arity = {'user1': 1, 'user2': 2, 'user3': 3, 'userwild': rng.randint(1, 3)}[k]
    ws = []
    left = min(budget, 8)
    for i in range(arity):
        ws.append(rng.randint(1, max(1, (left - (arity - i - 1)) // (arity - i))))
        left -= ws[-1]
    tot = sum(ws)
    table = list(range(1 << tot))
    rng.shuffle(table)
    shift = [rng.choice([0, 0, -1, 1, 5, -(1 << 33)]) * (1 << x) for x in ws] if k == 'userwild' else [0] * arity

    def pack(v):
        x, sh = 0, 0
        for a, b in zip(v, ws):
            x |= a << sh
            sh += b
        return x

    def fun(*v):
        x = table[pack(v)]
        out = []
        for b, s in zip(ws, shift):
            out.append((x & ((1 << b) - 1)) + s)
            x >>= b
        return rng_ret(out)
    style = rng.choice(['init', 'override'])
    rng_ret = tuple if rng.random() < .5 else list
    return k, user_gate(fun, arity, style), ws, lambda v: list(fun(*v)), any_


def case(ctx, rng, idx, want_py, maxq, minq=4, wmax=8):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.meta import Control, Dagger
    from projectq.ops import Rx, H, All
    import projectq.backends._sim._simulator as s
    if bool(s.FALLBACK_TO_PYSIM) != want_py:
        raise RuntimeError('unexpected simulator implementation')
    nctl = rng.choice([0, 0, 0, 1, 1, 2, 3])
    nspec = rng.choice([0, 0, 1, 2])
    total_max = rng.randint(minq, maxq)
    name, gate, ws, fn, dom = make(rng, max(1, total_max - nctl - nspec), wmax)
    nreg = sum(ws)
    n = nreg + nctl + nspec
    cstate = [rng.choice([1, 1, 0]) for _ in range(nctl)]
    if name == 'userwild' or rng.random() < .7:
        inverse = False
    else:
        inverse = name in ('addc', 'subc', 'addmod', 'submod', 'add', 'addcarry', 'sub', 'cmp', 'mul', 'div')
    ctx.describe(dict(name=name, gate=str(gate) if not name.startswith('user') else name, ws=ws, nctl=cstate, nspec=nspec, inverse=inverse))
    eng = MainEngine(backend=Simulator(gate_fusion=rng.random() < .5, rnd_seed=rng.randrange(1 << 32)), engine_list=[], verbose=True)
    # basis states of the domain
    order = list(range(n))
    rng.shuffle(order)            # order[i]: allocation index of logical position i
    N = 1 << n
    vals = []
    for x in range(N) if N <= 8192 else sorted(rng.sample(range(N), 8192)):
        v, y = [], x
        for b in ws:
            v.append(y & ((1 << b) - 1))
            y >>= b
        if dom(v):
            vals.append((x, v, y))
    if not vals:
        return
    if rng.random() < .5 and len(vals) > 4:
        vals = rng.sample(vals, rng.choice([1, 2, 4, max(1, len(vals) // 2)]))
    moved = {}
    for x, v, y in vals:
        c = [(y >> i) & 1 for i in range(nctl)]
        if c == cstate:
            new, sh, z = fn(list(v)), 0, 0
            for a, b in zip(new, ws):
                z |= (int(a) % (1 << b)) << sh
                sh += b
            z |= y << sh
        else:
            z = x
        moved[x] = z
    if len(set(moved.values())) != len(moved):
        raise RuntimeError('harness: not injective %s' % name)
    src = list(moved)
    if inverse:
        src = [moved[x] for x in moved]
        back = {z: x for x, z in moved.items()}
        moved = back
    amp = np.zeros(N, complex)
    g = np.random.default_rng(rng.randrange(1 << 32))
    a = g.standard_normal(len(src)) + 1j * g.standard_normal(len(src))
    a /= np.linalg.norm(a)
    amp[src] = a
    exp = np.zeros(N, complex)
    exp[[moved[x] for x in src]] = a
    qall = eng.allocate_qureg(n)
    eng.flush()
    q = [qall[order[i]] for i in range(n)]
    perm_in = np.zeros(N, complex)

    def to_alloc(vec):
        """position i of the model is allocation index order[i]"""
        t = vec.reshape((2,) * n)
        st = ref.State()
        st.names = list(range(n))
        st.psi = vec
        return st
    st = to_alloc(amp)
    inv = [0] * n
    for i, o in enumerate(order):
        inv[o] = i
    wave = st.reorder(inv)  # bit j = model position whose allocation index is j
    eng.backend.set_wavefunction(wave.tolist(), qall)
    regs, i = [], 0
    for b in ws:
        regs.append(q[i:i + b])
        i += b
    ctl = q[i:i + nctl]
    free = q[i + nctl:]
    pend = []
    if free and rng.random() < .5:   # pending fused gate on a spectator
        t = rng.uniform(0, 6)
        Rx(t) | free[0]
        pend.append((t, i + nctl))

    def act():
        gate | (tuple(regs) if len(regs) > 1 else regs[0])
    def ctrl():
        if nctl:
            with Control(eng, ctl, ''.join(map(str, cstate))):
                act()
        else:
            act()
    if inverse:
        with Dagger(eng):
            ctrl()
    else:
        ctrl()
    if free and rng.random() < .5:
        t = rng.uniform(0, 6)
        Rx(t) | free[-1]
        pend.append((t, n - 1))
    if rng.random() < .3:
        gate2 = rng.random()
    eng.flush()
    m, got = eng.backend.cheat()
    got = np.array(got, complex)
    es = to_alloc(exp)
    for t, p in pend:
        es.apply(ref.rot(ref.X, t), [p])
    pos = [m[qb.id] for qb in q]
    gs = ref.State()
    gs.names = [None] * n
    for i, p in enumerate(pos):
        gs.names[p] = i
    gs.psi = got
    d = float(np.max(np.abs(gs.reorder(list(range(n))) - es.reorder(list(range(n))))))
    ctx.count('amplitudes_compared', N)
    ctx.count('basis_states_moved', sum(x != moved[x] for x in src))
    ctx.count('gates_emulated')
    big = abs(getattr(gate, 'a', 0)) >= 2**31
    ctx.check(d < 1e-9, 'wrong-result', lambda: '%s on widths %s (controls %s%s): an amplitude differs by %.3g' % (name, ws, cstate, ', inverse' if inverse else '', d))
    ctx.sig(name, tuple(ws), tuple(cstate), inverse, big, bool(pend))
    for qb in qall:
        qb.id = -1
    if idx < 3:
        ctx.sample(dict(name=name, ws=ws, cstate=cstate, moved=len(src)))


def cpp(ctx, rng, idx):
    case(ctx, rng, idx, False, 11 if not ctx.thorough else 14)


def py(ctx, rng, idx):
    case(ctx, rng, idx, True, 8 if not ctx.thorough else 11)


def wide(ctx, rng, idx):
    """Single wide registers: constants near the register boundary."""
    case(ctx, rng, idx, False, 13 if not ctx.thorough else 16)


def long(ctx, rng, idx):
    """Registers of more than 16 bits, numbers beyond 2^16."""
    case(ctx, rng, idx, False, 20 if ctx.thorough else 19, 17, 20)


JOBS = {
    'long': Job(long, 50, variant='rel', shards=2, time_quick=60),
    'cpp': Job(cpp, 1500, variant='rel', shards=4, time_quick=35),
    'portable': Job(cpp, 400, variant='nointrin', shards=2, time_quick=30),
    'py': Job(py, 700, variant=None, shards=3, time_quick=35),
    'wide': Job(wide, 150, variant='rel', shards=1, time_quick=30, env={'OMP_NUM_THREADS': '3'}),
}
