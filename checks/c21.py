"""C21: state preparation and multiplexed rotations reach the exact target."""
import cmath
import math

import numpy as np

from vlib import ref
from vlib.harness import Job, Skip, Violation
from vlib.pq import RefBackend

PI = math.pi
RULE = ('target vectors (dense, sparse, real, signed, basis states, products, amplitudes from 1e-200 to 1), angle lists (zero, equal, tiny, multiples of pi, beyond a '
        'period) and 2x2 unitaries (random, diagonal, antidiagonal, perturbed by 1e-15 .. 1e-3, determinant one or not) on scattered, permuted registers next to '
        'entangled qubits, with up to two further controls of either value, forward, inverted and undone, compiled for the simulator and for a CNOT+rotations '
        'backend. Oracle: exact model state of the whole register; malformed inputs must be refused before anything reaches the backend')
ASSUMPTIONS = ['registers up to six qubits, five control qubits in multiplexed rotations', 'accuracy 2e-10']
MIN = dict(prepared=300, multiplexed=300, unitaries=600, undone=100, rejected=300, merged=100)
TOL = 2e-10


def native(cmd):
    """A CNOT + single-qubit rotations machine."""
    n = cmd.control_count if hasattr(cmd, 'control_count') else len(cmd.control_qubits)
    name = type(cmd.gate).__name__
    if n == 0:
        return name in ('Rx', 'Ry', 'Rz', 'Ph', 'HGate', 'TGate', 'SGate', 'XGate') or str(cmd.gate) in ('T^\\dagger', 'S^\\dagger')
    return n == 1 and name == 'XGate' and '0' not in cmd.control_state


def fused(cmd):
    """What a state-vector simulator executes: matrices of one qubit, any positive controls."""
    try:
        m = cmd.gate.matrix
    except AttributeError:
        return False
    return len(m) == 2 and sum(len(q) for q in cmd.qubits) == 1 and '0' not in cmd.control_state


class Scene:
    """Engine with qubits in a product/entangled state and the exact model next to it."""

    def __init__(self, ctx, rng, idx, nq, spare=()):
        from projectq import MainEngine
        from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer
        from projectq.ops import CNOT, Ry, Rz
        import projectq.setups.decompositions as dec
        self.ctx, self.rng = ctx, rng
        self.kind = rng.choice(['native', 'native', 'fused'])
        self.be = RefBackend(seed=idx, available=dict(native=native, fused=fused)[self.kind])
        pre = [LocalOptimizer(rng.choice([1, 4, 20]))] if rng.random() < .4 else []
        self.eng = MainEngine(backend=self.be, engine_list=pre + [AutoReplacer(DecompositionRuleSet(modules=[dec])), LocalOptimizer(rng.choice([1, 8]))], verbose=True)
        self.q = [self.eng.allocate_qubit()[0] for _ in range(nq)]
        self.n = nq
        self.spare = set(spare)         # qubits left in |0>
        self.model = ref.State()
        for i in range(nq):
            self.model.alloc(i)
        prev = None
        for i in range(nq):
            if i in self.spare:
                continue
            a, b = rng.uniform(0, 3), rng.uniform(0, 6)
            Ry(a) | self.q[i]
            Rz(b) | self.q[i]
            self.model.apply(ref.rot(ref.Y, a), [i])
            self.model.apply(ref.rot(ref.Z, b), [i])
            if prev is not None:
                CNOT | (self.q[prev], self.q[i])
                self.model.apply(ref.X, [i], [prev])
            prev = i

    def controls(self, pool, most=2):
        n = self.rng.choice([0, 0, 1, most])
        c = self.rng.sample(pool, min(n, len(pool)))
        return c, [self.rng.choice([1, 1, 0]) for _ in c]

    def under(self, c, cs, f):
        from projectq.meta import Control
        if c:
            with Control(self.eng, [self.q[i] for i in c], ctrl_state=''.join(map(str, cs))):
                f()
        else:
            f()

    def finish(self, key, what, cleanup=True):
        """Flush and compare the state."""
        self.eng.flush()
        be = self.be
        try:
            e = be.errors + be.refused + be.life.errors
            if e:
                raise Violation(key + ':stream', e[0], log=be.log[-40:])
            ids = [q.id for q in self.q]
            if sorted(be.state.names) != sorted(ids):
                raise Violation(key + ':qubits', 'live qubits %s, expected %s' % (sorted(be.state.names), sorted(ids)), log=be.log[-40:])
            d = ref.phase_distance(be.state.reorder(ids), self.model.reorder(list(range(self.n))))
            if not d < TOL:
                raise Violation(key, 'state is off by %.3g: %s' % (d, what), log=be.log[-60:])
        finally:
            if cleanup:
                self.done()

    def done(self):
        for q in self.q:
            q.id = -1


def vector(rng, n):
    """A normalised vector of 2**n amplitudes: (kind, list)."""
    N = 1 << n
    kind = rng.choice(['dense', 'dense', 'sparse', 'sparse', 'real', 'signed', 'basis', 'uniform', 'product', 'tiny', 'tiny', 'scales', 'half', 'phases'])
    g = lambda: complex(rng.gauss(0, 1), rng.gauss(0, 1))       # noqa
    if kind == 'dense':
        v = [g() for _ in range(N)]
    elif kind == 'sparse':
        v = [g() if rng.random() < .3 else 0 for _ in range(N)]
    elif kind == 'real':
        v = [abs(rng.gauss(0, 1)) for _ in range(N)]
    elif kind == 'signed':
        v = [rng.gauss(0, 1) for _ in range(N)]
    elif kind == 'basis':
        v = [0] * N
        v[rng.randrange(N)] = rng.choice([1, -1, 1j, -1j, 1.0, cmath.exp(.3j)])
    elif kind == 'uniform':
        v = [rng.choice([1, 1, -1, 1j, -1j]) for _ in range(N)]
    elif kind == 'product':
        v = ref.kron_le([np.array([[g()], [g()]]) for _ in range(n)])[:, 0] if n else [g()]
    elif kind == 'tiny':
        v = [g() * rng.choice([1, 1e-4, 1e-9, 1e-30, 1e-160, 1e-200, 0]) for _ in range(N)]
    elif kind == 'scales':
        v = [g() * 10 ** rng.uniform(-12, 0) for _ in range(N)]
    elif kind == 'half':
        b = rng.randrange(n) if n else 0
        v = [g() if (i >> b) & 1 else 0 for i in range(N)]
    else:
        v = [cmath.exp(1j * rng.choice([0, PI, -PI, PI - 1e-12, -PI + 1e-12, PI / 2, rng.uniform(-4, 4)])) for _ in range(N)]
    if not any(v):
        v[rng.randrange(N)] = 1
    if not np.linalg.norm(v) > 1e-100:
        v[rng.randrange(N)] = g()
    if kind in ('basis',):
        return kind, v
    v = np.array(v) / np.linalg.norm(v)
    v = v / np.linalg.norm(v)
    return kind, rng.choice([list(v), v, tuple(complex(x) for x in v)])


def case_prepare(ctx, rng, idx):
    from projectq.meta import Compute, Dagger, Uncompute
    from projectq.ops import CNOT, StatePreparation
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
    extra = rng.randint(0, 3)
    order = rng.sample(range(n + extra), n + extra)
    reg, rest = order[:n], order[n:]
    s = Scene(ctx, rng, idx, n + extra, reg)
    kind, v = vector(rng, n)
    c, cs = s.controls(rest)
    how = rng.choice(['forward', 'forward', 'forward', 'undo', 'compute'])
    ctx.describe(dict(vector=[complex(x) for x in v], kind=kind, register=reg, of=n + extra, controls=c, values=cs, how=how, backend=s.kind))
    gate = StatePreparation(v)
    qs = [s.q[i] for i in reg]
    arg = qs[0] if n == 1 and rng.random() < .5 else rng.choice([qs, (qs,)])
    want = np.array(v, complex)
    # a unitary with that first column
    m = np.eye(1 << n, dtype=complex)
    m[:, 0] = want
    a = np.linalg.qr(np.column_stack([want, np.random.RandomState(idx % 2**31).randn(1 << n, 2 * (1 << n) - 1)[:, :(1 << n)]]))[0][:, :1 << n]
    a = a * 1.0
    a[:, 0] = want
    if how == 'compute':
        with Compute(s.eng):
            s.under(c, cs, lambda: gate | arg)
        x = rng.choice(rest) if rest and rng.random() < .5 else None
        if x is not None and not c:
            CNOT | (s.q[reg[0]], s.q[x])
            s.model.apply(a, reg)
            s.model.apply(ref.X, [x], [reg[0]])
            # undoing is checked through the part on which it is specified: without the CNOT acting
            s.under([], [], lambda: CNOT | (s.q[reg[0]], s.q[x]))
            s.model.apply(ref.X, [x], [reg[0]])
            s.model.apply(a.conj().T, reg)
        Uncompute(s.eng)
        ctx.count('undone')
    else:
        s.under(c, cs, lambda: gate | arg)
        if how == 'forward':
            s.model.apply(a, reg, c, cs)
        else:
            if rng.random() < .5:
                s.eng.flush()
            with Dagger(s.eng):
                s.under(c, cs, lambda: gate | arg)
            ctx.count('undone')
    s.finish('prepared' if how == 'forward' else 'prepared:undone', 'StatePreparation(%s) on %s controls %s=%s (%s)' % ([complex(x) for x in v][:16], reg, c, cs, how))
    ctx.count('prepared')
    ctx.sig('prep', kind, n, len(c), how, s.kind)


def angle_list(rng, k):
    N = 1 << k
    special = [0, 0.0, PI, -PI, 2 * PI, -2 * PI, 3 * PI, 4 * PI, 6 * PI, 1e-9, -1e-9, 1e-13, PI / 2, 4 * PI - 1e-13, 4 * PI + .3, -9.]
    special += [10 ** rng.uniform(-13, -3), -10 ** rng.uniform(-9, -5), 2 * PI + 10 ** rng.uniform(-9, -5)]
    kind = rng.choice(['random', 'random', 'special', 'mixed', 'equal', 'single', 'zeros', 'large', 'small'])
    if kind == 'random':
        a = [rng.uniform(-7, 7) for _ in range(N)]
    elif kind == 'special':
        a = [rng.choice(special) for _ in range(N)]
    elif kind == 'mixed':
        a = [rng.choice(special) if rng.random() < .5 else rng.uniform(-7, 7) for _ in range(N)]
    elif kind == 'equal':
        a = [rng.choice(special + [1.3, -.4])] * N
    elif kind == 'single':
        a = [0.0] * N
        a[rng.randrange(N)] = rng.choice([PI, .7, -2 * PI, 2.2])
    elif kind == 'small':
        a = [rng.choice([1, -1]) * 10 ** rng.uniform(-11, -3) for _ in range(N)]
    elif kind == 'zeros':
        a = [rng.choice([0, 0.0, -0.0, 4 * PI]) for _ in range(N)]
    else:
        a = [rng.uniform(-100, 100) for _ in range(N)]
    return kind, rng.choice([a, tuple(a), np.array(a, float)])


def case_multiplex(ctx, rng, idx):
    from projectq.meta import Compute, Dagger, Loop, Uncompute
    from projectq.ops import UniformlyControlledRy, UniformlyControlledRz, X, get_inverse
    k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    extra = rng.randint(0, 2)
    order = rng.sample(range(k + 1 + extra), k + 1 + extra)
    sel, tgt, rest = order[:k], order[k], order[k + 1:]
    s = Scene(ctx, rng, idx, k + 1 + extra)
    steps = []
    hows = [rng.choice(['once', 'once', 'inverse', 'dagger', 'twice', 'loop', 'undo', 'compute']) for _ in range(rng.choice([1, 1, 2, 3]))]
    for how in hows:
        axis = rng.choice('yz')
        cls = UniformlyControlledRy if axis == 'y' else UniformlyControlledRz
        kind, a = angle_list(rng, k)
        c, cs = s.controls(rest)
        steps.append('%s R%s%s select %s target %s controls %s=%s' % (how, axis, [float(x) for x in a], sel, tgt, c, cs))
        ctx.describe(dict(steps=steps, backend=s.kind))
        g = cls(a)
        m = ref.ucr(axis, [float(x) for x in a], k)
        where = sel + [tgt]
        arg = ([s.q[i] for i in sel], rng.choice([s.q[tgt], [s.q[tgt]]]))
        go = lambda g=g: s.under(c, cs, lambda: g | arg)        # noqa
        fwd = lambda: s.model.apply(m, where, c, cs)            # noqa
        bwd = lambda: s.model.apply(m.conj().T, where, c, cs)   # noqa
        if how == 'once':
            go(), fwd()
        elif how == 'inverse':
            go(get_inverse(g)), bwd()
        elif how == 'dagger':
            with Dagger(s.eng):
                go()
            bwd()
        elif how == 'twice':
            go(), go(), fwd(), fwd()
            ctx.count('merged')
        elif how == 'loop':
            with Loop(s.eng, 2):
                go()
            fwd(), fwd()
        elif how == 'undo':
            go()
            with Dagger(s.eng):
                go()
            ctx.count('merged')
        else:
            with Compute(s.eng):
                go()
            X | s.q[tgt]
            Uncompute(s.eng)
            fwd(), s.model.apply(ref.X, [tgt]), bwd()
        ctx.sig('ucr', axis, kind, k, len(c), how, s.kind)
    s.finish('multiplexed', '; '.join(steps))
    ctx.count('multiplexed')


def unitary2(rng):
    """(kind, 2x2 matrix)"""
    kind = rng.choice(['random', 'random', 'su2', 'diag', 'antidiag', 'near-diag', 'near-anti', 'near-id', 'real', 'clifford', 'phase', 'v-form', 'rotation', 'equal-mag'])
    u = ref.random_unitary(np.random.RandomState(rng.randrange(2**31)), 2)
    eps = rng.choice([1e-15, 1e-13, 9e-13, 1.1e-12, 2e-12, 1e-11, 1e-9, 1e-8, 1e-6, 1e-3]) * rng.choice([1, -1])
    ph = lambda: cmath.exp(1j * rng.choice([0, PI, PI / 2, -PI / 2, PI / 4, rng.uniform(-4, 4), rng.uniform(-1e-12, 1e-12)]))     # noqa
    if kind == 'su2':
        u = u / cmath.sqrt(np.linalg.det(u))
    elif kind == 'diag':
        u = np.diag([ph(), ph()])
    elif kind == 'antidiag':
        u = np.array([[0, ph()], [ph(), 0]])
    elif kind == 'near-diag':
        u = np.diag([ph(), ph()]) @ ref.rot(rng.choice([ref.X, ref.Y]), 2 * eps) @ np.diag([ph(), ph()])
    elif kind == 'near-anti':
        u = np.diag([ph(), ph()]) @ ref.rot(rng.choice([ref.X, ref.Y]), PI + 2 * eps) @ np.diag([ph(), ph()])
    elif kind == 'near-id':
        u = ref.rot(ref.X, eps) @ ref.rot(ref.Z, eps * rng.random()) * rng.choice([1, -1, 1j])
    elif kind == 'real':
        t = rng.uniform(-7, 7)
        u = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]]) @ np.diag([1, rng.choice([1, -1])])
    elif kind == 'clifford':
        H = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
        S = np.diag([1, 1j])
        u = np.eye(2)
        for _ in range(rng.randint(1, 6)):
            u = u @ rng.choice([H, S, ref.X, ref.Y, ref.Z])
    elif kind == 'phase':
        u = ph() * np.eye(2)
    elif kind == 'v-form':
        a, b, c = rng.choice([0, rng.uniform(-4, 4)]), rng.uniform(-4, 4), rng.choice([0, PI / 2, PI, rng.uniform(0, 6)])
        u = np.array([[-math.sin(c) * cmath.exp(1j * a), cmath.exp(1j * (a - b)) * math.cos(c)], [cmath.exp(1j * (a + b)) * math.cos(c), cmath.exp(1j * a) * math.sin(c)]])
    elif kind == 'rotation':
        u = ref.rot(rng.choice([ref.X, ref.Y, ref.Z]), rng.choice([PI, PI / 2, 2 * PI, 3 * PI, rng.uniform(-13, 13)]))
    elif kind == 'equal-mag':
        u = np.diag([ph(), ph()]) @ ref.rot(ref.Y, rng.choice([PI / 2, -PI / 2, 3 * PI / 2])) @ np.diag([ph(), ph()])
    return kind, np.array(u, complex)


def case_unitary(ctx, rng, idx):
    from projectq.ops import MatrixGate, get_inverse
    from projectq.meta import Dagger
    n = rng.randint(1, 5)
    s = Scene(ctx, rng, idx, n)
    if s.kind == 'fused':
        s.be.available = native
    steps = []
    for _ in range(rng.randint(1, 4)):
        kind, u = unitary2(rng)
        t = rng.randrange(n)
        c, cs = s.controls([i for i in range(n) if i != t], rng.choice([1, 1, 2, 3]))
        inv = rng.choice([None, None, 'inverse', 'dagger'])
        steps.append('%s %s on %d controls %s=%s %s' % (kind, u.tolist(), t, c, cs, inv))
        ctx.describe(dict(steps=steps, backend=s.kind))
        g = MatrixGate(rng.choice([u.tolist(), u]))
        if inv == 'inverse':
            g = get_inverse(g)
        if inv == 'dagger':
            with Dagger(s.eng):
                s.under(c, cs, lambda: g | s.q[t])
        else:
            s.under(c, cs, lambda: g | s.q[t])
        s.model.apply(u.conj().T if inv else u, [t], c, cs)
        ctx.count('unitaries')
        ctx.sig('u', kind, len(c), 0 in cs, inv)
    s.finish('unitary', '; '.join(steps))


def bad_case(rng, s):
    """(name, function, must nothing be sent) for one malformed use."""
    from projectq.ops import MatrixGate, StatePreparation, UniformlyControlledRy, UniformlyControlledRz
    reg = [s.q[i] for i in sorted(s.spare)]
    n = len(reg)
    kind = rng.choice(['length', 'length', 'norm', 'norm', 'nan', 'zero', 'registers', 'ucr-length', 'ucr-length', 'ucr-shape', 'ucr-targets', 'nonunitary', 'nonunitary', 'cnonunitary'])
    good = np.array(vector(rng, n)[1], complex)
    cls = rng.choice([UniformlyControlledRy, UniformlyControlledRz])
    if kind == 'length':
        k = rng.choice([i for i in (0, 1, (1 << n) - 1, (1 << n) + 1, 2 << n, 1 << (n - 1)) if i != 1 << n])
        v = np.zeros(k)
        v[:1] = 1
        return 'length %d for %d qubits' % (k, n), lambda: StatePreparation(v) | reg
    if kind == 'norm':
        f = rng.choice([1 + 1e-8, 1 - 1e-8, 2, .5, 1e10, 1e-10, 1 + 1e-3])
        return 'norm %r' % f, lambda: StatePreparation(good * f) | reg
    if kind == 'nan':
        v = list(good)
        v[rng.randrange(len(v))] = rng.choice([float('nan'), float('inf'), complex(0, float('nan'))])
        return 'amplitudes %r' % v, lambda: StatePreparation(v) | reg
    if kind == 'zero':
        return 'zero vector', lambda: StatePreparation([0] * (1 << n)) | reg
    if kind == 'registers':
        if n < 2:
            return None
        return 'two registers', lambda: StatePreparation(good) | (reg[:1], reg[1:])
    if kind == 'ucr-length':
        k = rng.choice([i for i in (0, 1, (1 << (n - 1)) - 1, (1 << (n - 1)) + 1, 1 << n) if i != 1 << (n - 1)])
        return '%d angles for %d selecting qubits' % (k, n - 1), lambda: cls([.3] * k) | (reg[1:], reg[0])
    if kind == 'ucr-shape':
        return 'one register', lambda: cls([.3] * (1 << (n - 1))) | reg if n > 1 else cls([.3, .4]) | reg
    if kind == 'ucr-targets':
        if n < 2:
            return None
        return 'two targets', lambda: cls([.1] * (1 << (n - 2))) | (reg[2:], reg[:2])
    u = unitary2(rng)[1]
    m = rng.choice([u * 2, u * .5, u + np.array([[0, .1], [.2, 0]]), np.array([[1, 1], [1, 1]]), np.array([[1, 1], [0, 1]]), np.array([[1, 0], [0, 0]]), np.array([[0, 1], [0, 0]]), np.array([[0, 0], [0, 0]]),
                    u * (1 + 1e-6), np.array([[1, 0], [0, 1 + 1e-5]]), np.array([[0, 1], [2, 0]]), np.full((2, 2), float('nan'))])
    from projectq.meta import Control
    if kind == 'nonunitary' or n < 2:
        return 'matrix %s' % m.tolist(), lambda: MatrixGate(m) | reg[0]

    def f():
        with Control(s.eng, reg[1:2]):
            MatrixGate(m) | reg[0]
    return 'controlled matrix %s' % m.tolist(), f


def case_reject(ctx, rng, idx):
    n = rng.randint(1, 4)
    s = Scene(ctx, rng, idx, n + 1, range(n))
    s.be.available = native
    s.eng.flush()
    b = bad_case(rng, s)
    if b is None:
        s.done()
        raise Skip
    what, f = b
    ctx.describe(what)
    before = len(s.be.log)
    try:
        f()
        s.eng.flush()
    except Exception as e:
        ctx.count('rejected')
        ctx.sig('rej', type(e).__name__, what.split(' ')[0])
    else:
        s.done()
        raise Violation('accepted:' + what.split(' ')[0], '%s: no error' % what, log=s.be.log[before:][:30])
    sent = [x for x in s.be.log[before:] if 'lush' not in x]
    if sent:
        s.done()
        raise Violation('rejected-but-sent', '%s was refused after sending %s' % (what, sent[:10]))
    s.done()


JOBS = dict(
    prepare=Job(case_prepare, 900, 8000, shards=2),
    multiplex=Job(case_multiplex, 900, 8000, shards=2),
    unitary=Job(case_unitary, 1200, 12000, shards=2),
    reject=Job(case_reject, 600, 5000, shards=1),
)
