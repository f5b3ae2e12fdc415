"""C27: arithmetic circuits compute exact results and clean up after themselves."""
import cmath
import math
from fractions import Fraction

import numpy as np

from projectq.cengines import BasicEngine
from vlib import ref, util
from vlib.harness import Job, Skip, Violation
from vlib.pq import BitBackend, RefBackend, cmd_kind, cmd_parts

RULE = ('arithmetic gates expanded by the shipped rules down to (multi-controlled) NOT and Swap, executed on all basis states of the documented '
        'domain (a sample above 4096), with 0-3 outer controls of either sign, forward and inverse; non-trivial by gate, widths, controls and '
        'direction')
ASSUMPTIONS = ['domain taken from the docstrings: equal widths, product register of 2n+1 qubits, remainder register zero for division, operands '
               'below the modulus, carry register of one qubit, or of two with the second in |0> when controlled']
MIN = dict(basis_states=20000, expansions=100, wide=10)


def division_meaning(v):
    d, r, c = v
    if r != 0:
        return None
    if c == 0 or c > d:
        return None
    return [d % c, d // c, c]


def spec(rng, forms):
    """name, gate maker, register sizes, forward meaning on tuples (None: outside of the domain), domain"""
    f = rng.choice(forms)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 9, 14, rng.choice([17, 31, 32, 33, 63, 64, 65])])
    if n > 6 and f in ('mul', 'div'):
        n = rng.choice([4, 5, 6])
    M = 1 << n
    if f == 'add2':
        return f, n, [n, n], lambda v: [v[0], (v[0] + v[1]) % M]
    if f == 'add3':
        return f, n, [n, n, 1], lambda v: [v[0], (v[0] + v[1]) % M, v[2] ^ ((v[0] + v[1]) >> n)]
    if f == 'add3w':  # two-qubit carry register, second qubit stays
        return f, n, [n, n, 2], lambda v: [v[0], (v[0] + v[1]) % M, v[2] ^ ((v[0] + v[1]) >> n)]
    if f == 'sub':
        return f, n, [n, n], lambda v: [v[0], (v[1] - v[0]) % M]
    if f == 'cmp':
        return f, n, [n, n, 1], lambda v: [v[0], v[1], v[2] ^ int(v[0] > v[1])]
    if f == 'mul':
        n = n if rng.random() < .2 else min(n, 4)
        return f, n, [n, n, 2 * n + 1], lambda v: [v[0], v[1], v[0] * v[1]] if v[2] == 0 else None
    if f == 'div':
        n = n if rng.random() < .2 else min(n, 4)
        return f, n, [n, n, n], division_meaning
    raise ValueError(f)


FORMS = ['add2', 'add3', 'add3w', 'sub', 'cmp', 'mul', 'div']


def gate_of(f):
    import projectq.libs.math as m
    return {'add2': m.AddQuantum, 'add3': m.AddQuantum, 'add3w': m.AddQuantum, 'sub': m.SubtractQuantum, 'cmp': m.ComparatorQuantum,
            'mul': m.MultiplyQuantum, 'div': m.DivideQuantum}[f]


def sampled(rng, sizes, zero):
    for _ in range(1500):
        yield [0 if i == zero else rng.choice([rng.randrange(1 << s), rng.randrange(1 << s), 0, 1, (1 << s) - 1, 1 << (s - 1)]) for i, s in enumerate(sizes)]


def domain(rng, sizes, fn, extra, limit=3000):
    total = sum(sizes)
    out = []
    N = 1 << (total + extra)
    idx = range(N) if N <= limit else None
    tries = 0
    while True:
        if idx is not None:
            cand = list(idx)
        else:
            cand = []
            for _ in range(limit):
                x, sh = 0, 0
                for s in sizes + [extra]:
                    r = rng.random()
                    v = rng.randrange(1 << s) if r < .7 else rng.choice([0, 1, (1 << s) - 1, 1 << max(0, s - 1)])
                    x |= (v & ((1 << s) - 1)) << sh
                    sh += s
                cand.append(x)
        for x in cand:
            v, sh = [], 0
            for s in sizes:
                v.append((x >> sh) & ((1 << s) - 1))
                sh += s
            c = x >> sh
            w = fn(v)
            if w is not None:
                out.append((v, c, w))
        tries += 1
        if idx is not None or len(out) >= min(300, limit) or tries > 4:
            break
    # domains that need a zero register: enumerate directly
    if len(out) < 40:
        import itertools
        rngs = [range(1 << s) for s in sizes]
        for i in range(len(sizes)):
            rr = list(rngs)
            rr[i] = [0]
            sz = 1
            for r in rr:
                sz *= len(r)
            if True:
                for v in itertools.product(*rr) if sz <= 5000 else sampled(rng, sizes, i):
                    w = fn(list(v))
                    if w is not None:
                        out.append((list(v), rng.randrange(1 << extra) if extra else 0, w))
                        if extra:
                            out.append((list(v), (1 << extra) - 1, w))
    return out


def allowed_x(cmd):
    return type(cmd.gate).__name__ in ('XGate', 'SwapGate')


def run_case(ctx, rng, name, sizes, fn, apply, available, inverse, nctl, cstate, limit=3000):
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter, TagRemover
    from projectq.meta import Compute, Control, Dagger, Uncompute
    rules = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
    be = BitBackend(available)
    eng = MainEngine(backend=be, engine_list=[AutoReplacer(rules), TagRemover()], verbose=True)
    regs = [eng.allocate_qureg(s) for s in sizes]
    ctl = eng.allocate_qureg(nctl) if nctl else []
    ids = [[q.id for q in r] for r in regs]
    cid = [q.id for q in ctl]
    eng.flush()
    dom = domain(rng, sizes, fn, nctl, limit)
    if not dom:
        raise Skip()
    want_c = sum(b << i for i, b in enumerate(cstate))
    ins, exp = [], []
    for v, c, w in dom:
        act = (c == want_c) if nctl else True
        if inverse:
            src, dst = (w, v) if act else (w, w)
        else:
            src, dst = (v, w) if act else (v, v)
        ins.append((src, c))
        exp.append((dst, c))
    n = len(ins)
    for j, r in enumerate(ids):
        be.load(r, [s[j] for s, c in ins], n)
    be.load(cid, [c for s, c in ins], n)
    before = set(be.bits)
    quregs = tuple(regs)

    def body():
        if inverse == 'dagger':
            with Dagger(eng):
                apply(quregs, False)
        elif inverse:
            apply(quregs, True)
        else:
            apply(quregs, False)
    if nctl:
        with Control(eng, ctl, ''.join(map(str, cstate))):
            body()
    else:
        body()
    eng.flush()
    tag = '%s%s%s' % (name, '-inverse' if inverse else '', '-controlled' if nctl else '')
    if be.life.errors:
        raise Violation('%s:stream' % tag, be.life.errors[0], log=be.log[-40:])
    if be.errors:
        raise Violation('%s:stream' % tag, be.errors[0], log=be.log[-40:])
    if set(be.bits) != before:
        raise Violation('%s:work-qubits' % tag, 'work qubits left allocated: %s' % sorted(set(be.bits) - before))
    got = [be.value(r) for r in ids]
    gc = be.value(cid)
    ctx.count('basis_states', n)
    ctx.count('expansions')
    for i in range(n):
        g = [x[i] for x in got]
        if g != list(exp[i][0]) or (nctl and gc[i] != exp[i][1]):
            raise Violation('%s:value' % tag, 'registers %s controls %s -> %s, expected %s (sizes %s, wanted control value %s)' % (
                ins[i][0], bin(ins[i][1]), g, exp[i][0], sizes, want_c), bad=sum(1 for k in range(n) if [x[k] for x in got] != list(exp[k][0])), of=n)
    for q in regs + [ctl]:
        for x in q:
            x.id = -1  # not part of this case
    ctx.sig(tag, tuple(sizes), nctl, tuple(cstate), str(inverse))


def quantum(ctx, rng, idx):
    from projectq.ops import get_inverse
    name, n, sizes, fn = spec(rng, [FORMS[idx % len(FORMS)]])
    inverse = rng.choice([False, False, 'dagger', 'inverse'])
    nctl = rng.choice([0, 0, 0, 1, 1, 2, 3])
    if name in ('mul', 'div', 'add3') and rng.random() < .7:
        nctl = 0
    if name == 'add3w' and nctl == 0:
        nctl = 1
    cstate = [1 if rng.random() < .75 else 0 for _ in range(nctl)]
    g = gate_of(name)
    if name == 'add3w':
        f0 = fn
        fn = lambda v: f0(v) if v[2] < 2 else None
    ctx.describe(dict(gate=name, sizes=sizes, inverse=str(inverse), controls=cstate))
    most = {'add2': 3 if inverse else 1, 'add3': 0, 'add3w': 1, 'mul': 0, 'div': 0, 'sub': 1 if inverse else 3}.get(name, 3)
    try:
        run_case(ctx, rng, name, sizes, fn, lambda q, inv: (get_inverse(g) if inv else g) | q, allowed_x, inverse, nctl, cstate,
                 3000 if n < 15 else 150)
    except ValueError:
        # the circuits for addition (and what is built from them) take at most one control and say so
        if nctl <= most:
            raise
        ctx.count('rejected_controls')
        raise Skip() from None
    if idx < 3:
        ctx.sample(dict(gate=name, sizes=sizes, controls=cstate, inverse=str(inverse)))


def allowed_const(cmd):
    return type(cmd.gate).__name__ in ('XGate', 'SwapGate', 'AddConstant')


def allowed_modular(cmd):
    return type(cmd.gate).__name__ in ('XGate', 'SwapGate', 'AddConstantModN', 'SubConstantModN', 'AddConstant')


def constants(ctx, rng, idx):
    """Modular constant arithmetic down to NOT, Swap and constant addition."""
    from projectq.libs.math import AddConstantModN, MultiplyByConstantModN, SubConstantModN
    from projectq.ops import get_inverse
    n = rng.choice([1, 2, 3, 3, 4, 5, 7, 9])
    which = rng.choice(['addmod', 'addmod', 'submod', 'mulmod', 'mulmod'])
    limit, ok = 3000, allowed_const
    if idx % 5 == 4:        # registers of practical sizes, on a few basis states
        n = rng.choice([17, 31, 32, 33, 34, 48, 62, 63, 64, 65, 66, 90, 128, 130])
        limit, ok = 24, rng.choice([allowed_const, allowed_modular])
        ctx.count('wide')
    N = rng.choice([rng.randint(1, 1 << n), 1 << n, (1 << n) - 1, (1 << (n - 1)) + 1])
    N = max(1, N)
    a = rng.randrange(N)
    if which == 'mulmod':
        N = max(2, N)
        a = rng.choice([1, N - 1, rng.randrange(1, N), rng.randrange(1, N)])
        while math.gcd(a, N) != 1:
            a = rng.randrange(1, N)
    nctl = rng.choice([0, 0, 1, 2])
    cstate = [1 if rng.random() < .75 else 0 for _ in range(nctl)]
    inverse = rng.choice([False, False, 'dagger', 'inverse'])
    ctx.describe(dict(gate=which, a=a, N=N, n=n, inverse=str(inverse), controls=cstate))
    if which == 'addmod':
        g, fn = AddConstantModN(a, N), lambda v: [(v[0] + a) % N] if v[0] < N else None
    elif which == 'submod':
        g, fn = SubConstantModN(a, N), lambda v: [(v[0] - a) % N] if v[0] < N else None
    else:
        g, fn = MultiplyByConstantModN(a, N), lambda v: [(v[0] * a) % N] if v[0] < N else None
    run_case(ctx, rng, which, [n], fn, lambda q, inv: (get_inverse(g) if inv else g) | q, ok, inverse, nctl, cstate, limit)


def constant_add(ctx, rng, idx):
    """Constant addition in Fourier space, on superpositions, with rotations and Hadamards only."""
    from vlib.prog import Runner
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, DecompositionRuleSet
    from projectq.libs.math import AddConstant, SubConstant
    from projectq.meta import Control, Dagger
    from projectq.ops import get_inverse
    n = rng.choice([1, 2, 3, 4, 5])
    if idx % 8 == 7:
        n = rng.choice([8, 9, 10, 11])
    nctl = rng.choice([0, 0, 1, 2] if n < 6 else [0, 0, 1])
    cstate = [1 if rng.random() < .7 else 0 for _ in range(nctl)]
    a = rng.choice([0, 1, 3, (1 << n) - 1, 1 << (n - 1), rng.randrange(1 << n), rng.randrange(1 << (n + 2)), -rng.randrange(1 << n), -1])
    mode = rng.choice(['fwd', 'sub', 'inverse', 'dagger'])
    ok = {'HGate', 'R', 'XGate', 'SwapGate', 'Rz', 'Ph', 'ZGate', 'SGate', 'TGate'}
    be = RefBackend(available=lambda cmd: type(cmd.gate).__name__ in ok)
    rules = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
    eng = MainEngine(backend=be, engine_list=[AutoReplacer(rules)], verbose=True)
    q = eng.allocate_qureg(n)
    c = eng.allocate_qureg(nctl)
    eng.flush()
    g = np.random.default_rng(rng.randrange(1 << 60))
    N = 1 << (n + nctl)
    v = g.standard_normal(N) + 1j * g.standard_normal(N)
    v /= np.linalg.norm(v)
    ids = [x.id for x in q] + [x.id for x in c]
    be.state.psi = v.copy()
    be.state.names = list(ids)
    ctx.describe(dict(a=a, n=n, controls=cstate, mode=mode))
    exp = be.state.copy()
    da = a if mode in ('fwd',) else -a
    exp.apply_perm(lambda x: (x + da) % (1 << n), ids[:n], ids[n:], cstate)

    def body():
        if mode == 'fwd':
            AddConstant(a) | q
        elif mode == 'sub':
            SubConstant(a) | q
        elif mode == 'inverse':
            get_inverse(AddConstant(a)) | q
        else:
            with Dagger(eng):
                AddConstant(a) | q
    if nctl:
        with Control(eng, c, ''.join(map(str, cstate))):
            body()
    else:
        body()
    eng.flush()
    if be.errors or be.life.errors or be.refused:
        raise Violation('addconst:stream', (be.errors + be.life.errors + be.refused)[0], log=be.log[-40:])
    d = ref.phase_distance(be.state.reorder(ids), exp.reorder(ids))
    ctx.count('expansions')
    ctx.count('amplitudes', N)
    if d > 1e-9:
        raise Violation('addconst:value', 'constant addition a=%d on %d qubits (%s, controls %s) off by %.3g' % (a, n, mode, cstate, d))
    ctx.sig('addconst', n, nctl, mode, a)
    for x in list(q) + list(c):
        x.id = -1


class ProductBackend(BasicEngine):
    """Last engine executing circuits that keep every qubit unentangled: NOT, Hadamard and phases of which at most one operand is in superposition."""

    def __init__(self):
        super().__init__()
        self.v = {}             # qubit id -> (amplitude of 0, amplitude of 1)
        self.errors = []
        self.n = 0

    def is_available(self, cmd):
        return cmd_kind(cmd) != 'gate' or type(cmd.gate).__name__ in ('HGate', 'R', 'XGate', 'SwapGate')

    def basis(self, q):
        a, b = self.v[q]
        return 1 if abs(a) < 1e-9 else 0 if abs(b) < 1e-9 else None

    def receive(self, command_list):
        for cmd in command_list:
            k = cmd_kind(cmd)
            if k in ('flush', 'barrier'):
                continue
            sizes, targets, ctrls, cstate = cmd_parts(cmd)
            if k in ('alloc', 'allocdirty'):
                self.v[targets[0]] = (1., 0.)
                continue
            if k == 'dealloc':
                if self.basis(targets[0]) != 0:
                    self.errors.append('qubit %d released in state %s' % (targets[0], self.v[targets[0]]))
                del self.v[targets[0]]
                continue
            self.n += 1
            name = type(cmd.gate).__name__
            want = dict(zip(ctrls, cstate))
            open_ = []
            skip = False
            for c in ctrls:
                b = self.basis(c)
                if b is None:
                    open_.append(c)
                elif b != want[c]:
                    skip = True
            if skip:
                continue
            t = targets[0]
            if name == 'R':
                ph = cmath.exp(1j * cmd.gate.angle)
                where = [(c, want[c]) for c in open_] + [(t, 1)]
                where = [(q, w) for q, w in where if q in open_ or self.basis(q) != 1]
                if len(where) > 1 or not where:
                    if not where:
                        q, w = t, 1
                    elif any(self.basis(q) == 1 - w for q, w in where):
                        continue
                    else:
                        self.errors.append('entangling %s' % cmd)
                        continue
                else:
                    q, w = where[0]
                a, b = self.v[q]
                self.v[q] = (a, b * ph) if w else (a * ph, b)
            elif open_:
                self.errors.append('entangling %s' % cmd)
            elif name == 'HGate':
                a, b = self.v[t]
                self.v[t] = ((a + b) / math.sqrt(2), (a - b) / math.sqrt(2))
            elif name == 'XGate':
                self.v[t] = self.v[t][::-1]
            else:
                self.v[t], self.v[targets[1]] = self.v[targets[1]], self.v[t]


def wide_fourier(ctx, rng, idx):
    """QFT and constant addition on registers of practical sizes, from computational basis states."""
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, DecompositionRuleSet
    from projectq.libs.math import AddConstant, SubConstant
    from projectq.meta import Control, Dagger
    from projectq.ops import QFT, X, get_inverse
    n = rng.choice([6, 12, 20, 24, 25, 28, 31, 32, 33, 34, 40, 52, 53, 54, 63, 64, 65, 80])
    nctl = rng.choice([0, 0, 0, 1, 2])
    cstate = [1 if rng.random() < .7 else 0 for _ in range(nctl)]
    cval = cstate if rng.random() < .75 else [rng.randrange(2) for _ in range(nctl)]
    x = rng.choice([rng.randrange(1 << n), rng.randrange(1 << n), (1 << n) - 1, 0])
    mode = rng.choice(['fwd', 'sub', 'inverse', 'dagger', 'qft', 'qft', 'roundtrip'])
    a = rng.choice([1, 3, (1 << n) - 1, 1 << (n - 1), rng.randrange(1 << n), rng.randrange(1 << n), rng.randrange(1 << (n + 2)), -rng.randrange(1 << n)])
    be = ProductBackend()
    rules = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
    eng = MainEngine(backend=be, engine_list=[AutoReplacer(rules)], verbose=True)
    q = eng.allocate_qureg(n)
    c = eng.allocate_qureg(nctl)
    for i in range(n):
        if (x >> i) & 1:
            X | q[i]
    for i in range(nctl):
        if cval[i]:
            X | c[i]
    ctx.describe(dict(a=a, n=n, x=x, controls=cstate, values=cval, mode=mode))

    def body():
        if mode == 'fwd':
            AddConstant(a) | q
        elif mode == 'sub':
            SubConstant(a) | q
        elif mode == 'inverse':
            get_inverse(AddConstant(a)) | q
        elif mode == 'dagger':
            with Dagger(eng):
                AddConstant(a) | q
        else:
            QFT | q
            if mode == 'roundtrip':
                with Dagger(eng):
                    QFT | q
    if nctl:
        with Control(eng, c, ''.join(map(str, cstate))):
            body()
    else:
        body()
    eng.flush()
    act = cval == cstate
    if be.errors:
        raise Violation('wide:stream', be.errors[0])
    y = x + (0 if mode in ('qft', 'roundtrip') or not act else a if mode == 'fwd' else -a)
    worst = 0.
    for i in range(n):
        got = np.array(be.v[q[i].id])
        if mode == 'qft' and act:
            k = x % (1 << (i + 1))
            want = np.array([1, cmath.exp(1j * math.pi * float(Fraction(k, 1 << i)))]) / math.sqrt(2)
        else:
            want = np.array([0., 1.] if (y >> i) & 1 else [1., 0.])
        worst = max(worst, ref.phase_distance(got, want))
    for i in range(nctl):
        worst = max(worst, ref.phase_distance(np.array(be.v[c[i].id]), np.array([1. - cval[i], cval[i]])))
    ctx.count('wide_gates', be.n)
    ctx.count('expansions')
    for z in list(q) + list(c):
        z.id = -1
    if not worst < 1e-9:
        raise Violation('wide:' + ('qft' if 'qft' in mode or mode == 'roundtrip' else 'addconst'), '%s on %d qubits in state %d (controls %s in %s), constant %d: a qubit is off by %.3g' % (
            mode, n, x, cstate, cval, a, worst))
    ctx.sig('wide', n, mode, nctl, act)


def helpers(ctx, rng, idx):
    """inv_mod_N for operands of any size, and argument checks."""
    from projectq.libs.math._constantmath import inv_mod_N
    from projectq.libs.math import _constantmath as cm, _quantummath as qm
    from projectq import MainEngine
    bits = rng.choice([3, 8, 20, 52, 54, 64, 128, 512])
    N = rng.getrandbits(bits) | 1
    N = max(3, N)
    a = rng.randrange(1, N)
    while math.gcd(a, N) != 1:
        a = rng.randrange(1, N)
    x = inv_mod_N(a, N)
    ctx.count('modular_inverses')
    if not (0 <= x < N and a * x % N == 1 % N):
        raise Violation('inv-mod', 'inv_mod_N(%d, %d) = %r is not the inverse' % (a, N, x))
    ctx.sig('inv', bits)
    # rejections: nothing may be emitted
    be = BitBackend()
    eng = MainEngine(backend=be, engine_list=[], verbose=True)
    n = rng.randint(2, 4)
    A, B, C = eng.allocate_qureg(n), eng.allocate_qureg(n + 1), eng.allocate_qureg(n)
    one, two = eng.allocate_qureg(1), eng.allocate_qureg(2)
    P = eng.allocate_qureg(2 * n)
    k = len(be.log)
    bad = [
        ('modulus', lambda: cm.add_constant_modN(eng, -1, 5, A)), ('modulus', lambda: cm.add_constant_modN(eng, 6, 5, A)),
        ('modulus', lambda: cm.mul_by_constant_modN(eng, -1, 5, A)), ('modulus', lambda: cm.mul_by_constant_modN(eng, 7, 5, A)),
        ('coprime', lambda: cm.mul_by_constant_modN(eng, 2, 4, A)), ('coprime', lambda: cm.mul_by_constant_modN(eng, 0, 4, A)),
        ('width', lambda: qm.add_quantum(eng, A, B)), ('carry', lambda: qm.add_quantum(eng, A, C, two)),
        ('width', lambda: qm.subtract_quantum(eng, A, B)), ('width', lambda: qm.comparator(eng, A, B, one)),
        ('compare bit', lambda: qm.comparator(eng, A, C, two)), ('width', lambda: qm.quantum_conditional_add(eng, A, B, one)),
        ('conditional', lambda: qm.quantum_conditional_add(eng, A, C, two)), ('width', lambda: qm.quantum_division(eng, list(A), list(B), list(C))),
        ('width', lambda: qm.inverse_quantum_division(eng, list(A), list(B), list(C))),
        ('width', lambda: qm.quantum_conditional_add_carry(eng, A, B, one, two)), ('ctrl', lambda: qm.quantum_conditional_add_carry(eng, A, C, P[:2], two)),
        ('z', lambda: qm.quantum_conditional_add_carry(eng, A, C, one, one)), ('product', lambda: qm.quantum_multiplication(eng, A, C, P)),
        ('width', lambda: qm.quantum_multiplication(eng, A, B, P)), ('product', lambda: qm.inverse_quantum_multiplication(eng, A, C, P)),
        ('width', lambda: qm.inverse_add_quantum_carry(eng, A, [B, one])),
    ]
    name, f = bad[idx % len(bad)]
    try:
        f()
    except ValueError:
        ctx.count('rejections')
    else:
        raise Violation('accepted:%d' % (idx % len(bad)), 'arithmetic circuit with invalid %s accepted' % name)
    if len(be.log) != k:
        raise Violation('rejected-late:%d' % (idx % len(bad)), 'commands were emitted before the arguments were rejected: %s' % be.log[k:k + 5])
    ctx.sig('reject', idx % len(bad))
    for r in (A, B, C, one, two, P):
        for q in r:
            q.id = -1


JOBS = {'quantum': Job(quantum, 420, 6000, shards=4), 'constants': Job(constants, 160, 3000, shards=2), 'constant_add': Job(constant_add, 120, 2000, shards=2),
        'wide_fourier': Job(wide_fourier, 120, 2000, shards=2), 'helpers': Job(helpers, 110, 2000, shards=1)}
