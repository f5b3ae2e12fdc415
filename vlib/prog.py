"""Abstract quantum programs: generator, reference interpreter (numpy only) and executor through the ProjectQ API.

Statements (tuples):
  ('alloc', name) ('dealloc', name, how) ('gate', spec, regs, form) ('cgate', spec, ctrls, cstate, regs)
  ('control', ctrls, cstate, body) ('compute', body, action, how) ('loop', n, body) ('dagger', body)
  ('measure', [names]) ('flush',) ('if', name, body)  -- body executed when the last measured value of name is 1
"""
import math
import zlib

import numpy as np

from . import ref
from .ref import RefError, State

ANGLES = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 2 * math.pi, 3 * math.pi, 1e-3, 0.3, 1.7, 5.1, -2.2]

ONE = ['X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX', 'SqrtXdag']
ROT1 = ['Rx', 'Ry', 'Rz', 'R', 'Ph']
TWO = ['Swap', 'SqrtSwap', 'SqrtSwapdag']
ROT2 = ['Rxx', 'Ryy', 'Rzz']


# ------------------------------------------------------------------------------------------------ gate specifications
def angle(rng):
    x = rng.random()
    if x < .5:
        return rng.choice(ANGLES)
    if x < .58:
        return rng.choice([0, 2 * math.pi, 4 * math.pi]) + rng.choice([1, -1]) * 10 ** rng.uniform(-7, -3)
    return rng.uniform(-7, 14)


def spec_matrix(spec, sizes):
    n = spec[0]
    k = sum(sizes)
    fixed = dict(X=ref.X, Y=ref.Y, Z=ref.Z, H=ref.H, S=ref.S, T=ref.T, Sdag=ref.S.conj().T, Tdag=ref.T.conj().T,
                 SqrtX=ref.SQRTX, SqrtXdag=ref.SQRTX.conj().T, Swap=ref.SWAP, SqrtSwap=ref.SQRTSWAP,
                 SqrtSwapdag=ref.SQRTSWAP.conj().T)
    if n in fixed:
        return fixed[n]
    if n in ('Rx', 'Ry', 'Rz'):
        return ref.rot(ref.PAULI[n[1].upper()], spec[1])
    if n in ('Rxx', 'Ryy', 'Rzz'):
        p = ref.PAULI[n[1].upper()]
        return ref.rot(np.kron(p, p), spec[1])
    if n == 'R':
        return np.diag([1, np.exp(1j * spec[1])])
    if n == 'Ph':
        return np.exp(1j * spec[1]) * np.eye(1 << k)
    if n == 'U':
        return ref.random_unitary(np.random.default_rng(spec[1]), 1 << k)
    if n == 'QFT':
        return ref.qft(k)
    if n == 'QFTdag':
        return ref.qft(k).conj().T
    if n == 'Entangle':
        from .pq import _entangle
        return _entangle(k)
    if n == 'UCRy':
        return ref.ucr('y', spec[1], k - 1)
    if n == 'UCRz':
        return ref.ucr('z', spec[1], k - 1)
    if n == 'TimeEv':
        return ref.expm_herm(ref.pauli_terms_matrix(dict((tuple(map(tuple, t)), c) for t, c in spec[2]), k), spec[1])
    if n == 'QubitOp':
        return spec[2] * ref.pauli_terms_matrix({tuple(map(tuple, spec[1])): 1.0}, k)
    if n == 'Flip':
        return ref.perm_matrix(lambda x: x ^ (spec[1] & ((1 << k) - 1)), k)
    if n == 'AddC':
        return ref.perm_matrix(lambda x: (x + spec[1]) % (1 << k), k)
    if n == 'AddCMod':
        return ref.perm_matrix(lambda x: (x + spec[1]) % spec[2] if x < spec[2] else x, k)
    if n == 'MulCMod':
        return ref.perm_matrix(lambda x: (x * spec[1]) % spec[2] if x < spec[2] else x, k)
    if n == 'AddQ':
        s = sizes[0]
        return ref.perm_matrix(lambda x: (x & ((1 << s) - 1)) | ((((x & ((1 << s) - 1)) + (x >> s)) % (1 << sizes[1])) << s), k)
    raise ValueError(spec)


def spec_gate(spec):
    import projectq.ops as o
    import projectq.libs.math as m
    n = spec[0]
    fixed = dict(X=o.X, Y=o.Y, Z=o.Z, H=o.H, S=o.S, T=o.T, Sdag=o.Sdag, Tdag=o.Tdag, SqrtX=o.SqrtX, Swap=o.Swap, SqrtSwap=o.SqrtSwap,
                 QFT=o.QFT, Entangle=o.Entangle)
    if n in fixed:
        return fixed[n]
    if n == 'SqrtXdag':
        return o.get_inverse(o.SqrtX)
    if n == 'SqrtSwapdag':
        return o.get_inverse(o.SqrtSwap)
    if n == 'QFTdag':
        return o.get_inverse(o.QFT)
    if n in ('Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz', 'R', 'Ph'):
        return getattr(o, n)(spec[1])
    if n == 'U':
        return o.MatrixGate(ref.random_unitary(np.random.default_rng(spec[1]), 1 << spec[2]))
    if n == 'UCRy':
        return o.UniformlyControlledRy(list(spec[1]))
    if n == 'UCRz':
        return o.UniformlyControlledRz(list(spec[1]))
    if n == 'TimeEv':
        h = o.QubitOperator()
        for t, c in spec[2]:
            h += o.QubitOperator(tuple(map(tuple, t)), c)
        return o.TimeEvolution(spec[1], h)
    if n == 'QubitOp':
        return o.QubitOperator(tuple(map(tuple, spec[1])), spec[2])
    if n == 'Flip':
        return o.FlipBits(spec[1])
    if n == 'AddC':
        return m.AddConstant(spec[1])
    if n == 'AddCMod':
        return m.AddConstantModN(spec[1], spec[2])
    if n == 'MulCMod':
        return m.MultiplyByConstantModN(spec[1], spec[2])
    if n == 'AddQ':
        return m.AddQuantum
    raise ValueError(spec)


# ------------------------------------------------------------------------------------------------ reference interpreter
class Machine:
    """Reference execution of a program."""

    def __init__(self, seed, lid=None):
        self.state = State()
        self.seed = seed
        self.values = {}
        self.occ = {}
        self.outcomes = []
        self.forced = None
        self.impossible = None
        self.lid = lid or (lambda name: name)

    # a flat op: ('u', mat, targets, ctrls, cstate) ('alloc', n) ('dealloc', n)
    def flat(self, body, ctrls=(), cstate=()):
        out = []
        for st in body:
            k = st[0]
            if k == 'alloc':
                out.append(('alloc', st[1]))
            elif k == 'dealloc':
                out.append(('dealloc', st[1]))
            elif k == 'gate':
                regs = st[2]
                out.append(('u', spec_matrix(st[1], [len(r) for r in regs]), [q for r in regs for q in r], tuple(ctrls), tuple(cstate)))
            elif k == 'cgate':
                regs = st[4]
                out.append(('u', spec_matrix(st[1], [len(r) for r in regs]), [q for r in regs for q in r],
                            tuple(ctrls) + tuple(st[2]), tuple(cstate) + tuple(st[3])))
            elif k == 'control':
                out += self.flat(st[3], tuple(ctrls) + tuple(st[1]), tuple(cstate) + tuple(st[2]))
            elif k == 'compute':
                c = self.flat(st[1], ctrls, cstate)
                un = self.flat(st[4], ctrls, cstate) if st[3] == 'custom' else invert(c)
                out += c + self.flat(st[2], ctrls, cstate) + un
            elif k == 'loop':
                for _ in range(st[1]):
                    out += self.flat(st[2], ctrls, cstate)
            elif k == 'dagger':
                out += invert(self.flat(st[1], ctrls, cstate))
            else:
                raise ValueError(st)
        return out

    def run(self, body):
        for st in body:
            if st[0] == 'measure':
                for q in st[1]:
                    self.measure(q)
            elif st[0] == 'flush':
                pass
            elif st[0] == 'if':
                if self.values.get(st[1]) == 1:
                    self.run(st[2])
            else:
                for op in self.flat([st]):
                    self.prim(op)

    def prim(self, op):
        if op[0] == 'alloc':
            self.state.alloc(op[1])
        elif op[0] == 'dealloc':
            self.state.dealloc(op[1])
        else:
            self.state.apply(op[1], op[2], op[3], op[4])

    def measure(self, q):
        lid = self.lid(q)
        occ = self.occ.get(lid, 0)
        self.occ[lid] = occ + 1
        p1 = self.state.p1(q)
        from .pq import uhash
        v = 1 if uhash(self.seed, lid, occ) < p1 else 0
        if p1 < 1e-9:
            v = 0
        if p1 > 1 - 1e-9:
            v = 1
        f = (self.forced or {}).get((lid, occ))
        if f is not None:       # follow the outcomes of the run which is judged
            if (p1 if f else 1 - p1) < 1e-7:
                self.impossible = (lid, occ, p1, f)
            else:
                v = f
        self.state.project(q, v)
        self.values[q] = v
        self.outcomes.append((lid, occ, p1, v))


def invert(ops):
    out = []
    for op in reversed(ops):
        if op[0] == 'alloc':
            out.append(('dealloc', op[1]))
        elif op[0] == 'dealloc':
            out.append(('alloc', op[1]))
        else:
            out.append(('u', op[1].conj().T, op[2], op[3], op[4]))
    return out


# ------------------------------------------------------------------------------------------------ executor
class Runner:
    """Executes a program through the public ProjectQ API."""

    def __init__(self, eng):
        self.eng = eng
        self.q = {}
        self.ids = {}
        self.values = {}

    def run(self, body):
        from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
        from projectq.ops import C, Measure, All
        eng = self.eng
        for st in body:
            k = st[0]
            if k == 'alloc':
                self.q[st[1]] = eng.allocate_qubit()[0]
                self.ids[st[1]] = self.q[st[1]].id
            elif k == 'dealloc':
                q = self.q.pop(st[1])
                if len(st) > 2 and st[2] == 'explicit':
                    eng.deallocate_qubit(q)
                del q
            elif k == 'gate':
                self.gate(st[1], st[2], st[3] if len(st) > 3 else 'tuple')
            elif k == 'cgate':
                g = spec_gate(st[1])
                regs = [[self.q[n] for n in r] for r in st[4]]
                ctl = [self.q[n] for n in st[2]]
                if all(st[3]) and zlib.crc32(str(st[2]).encode()) % 2 == 0 and st[1][0] != 'Flip':
                    C(g, len(ctl)) | tuple([ctl] + regs)
                else:
                    with Control(eng, ctl, ''.join(map(str, st[3]))):
                        g | (tuple(regs) if len(regs) > 1 else regs[0])
                del regs, ctl
            elif k == 'control':
                cs = st[2]
                with Control(eng, [self.q[n] for n in st[1]], ''.join(map(str, cs))):
                    self.run(st[3])
            elif k == 'compute':
                before = set(self.q)
                with Compute(eng):
                    self.run(st[1])
                self.run(st[2])
                if st[3] == 'custom':
                    with CustomUncompute(eng):
                        self.run(st[4])
                else:
                    Uncompute(eng)
                for n in set(self.q) - before:
                    self.q.pop(n)
            elif k == 'loop':
                with Loop(eng, st[1]):
                    self.run(st[2])
            elif k == 'dagger':
                with Dagger(eng):
                    self.run(st[1])
            elif k == 'measure':
                qs = [self.q[n] for n in st[1]]
                if len(qs) == 1:
                    Measure | qs[0]
                else:
                    All(Measure) | qs
                del qs
                self.last_measured = getattr(self, 'last_measured', set()) | set(st[1])
            elif k == 'flush':
                eng.flush()
                for n in getattr(self, 'last_measured', set()):
                    if n in self.q:
                        self.values[n] = int(self.q[n])
            elif k == 'if':
                if self.values.get(st[1]) == 1:
                    self.run(st[2])
            else:
                raise ValueError(st)

    def gate(self, spec, regs, form):
        g = spec_gate(spec)
        regs = [[self.q[n] for n in r] for r in regs]
        if len(regs) == 1:
            if len(regs[0]) == 1 and form != 'list':
                g | regs[0][0]
            else:
                g | regs[0]
        elif form == 'flat' and all(len(r) == 1 for r in regs):
            g | tuple(r[0] for r in regs)
        else:
            g | tuple(regs)


# ------------------------------------------------------------------------------------------------ generator
class Gen:
    """Random program generator. Options select which features appear."""

    def __init__(self, rng, max_qubits=5, gates='all', max_controls=3, meta=True, measure=True, alloc=True, neg=True, size=25,
                 math_gates=False, highlevel=False, flush=True, ancilla=True, loop=True, minq=2, explicit=True, multi=True):
        self.rng = rng
        self.max_qubits, self.max_controls = max_qubits, max_controls
        self.meta, self.measure, self.alloc, self.neg = meta, measure, alloc, neg
        self.size, self.math_gates, self.highlevel, self.flush = size, math_gates, highlevel, flush
        self.ancilla, self.loop, self.gates, self.explicit, self.multi = ancilla, loop, gates, explicit, multi
        self.minq = minq
        self.next = 0
        self.live = []
        self.depth = 0
        self.hint = set()

    def new(self, prefix='q'):
        n = '%s%d' % (prefix, self.next)
        self.next += 1
        return n

    def program(self):
        rng = self.rng
        body = []
        for _ in range(rng.randint(self.minq, max(self.minq, self.max_qubits - 1))):
            n = self.new()
            body.append(('alloc', n))
            self.live.append(n)
        measured = set()
        for _ in range(self.size):
            r = rng.random()
            if r < .06 and self.alloc and len(self.live) < self.max_qubits:
                n = self.new()
                body.append(('alloc', n))
                self.live.append(n)
            elif r < .10 and self.flush:
                body.append(('flush',))
            elif r < .17 and self.measure and self.live:
                qs = rng.sample(self.live, rng.randint(1, min(2, len(self.live))))
                body.append(('measure', qs))
                what = rng.random()
                if what < .35 and self.alloc and len(self.live) > self.minq:
                    q = rng.choice(qs)
                    body.append(('dealloc', q, rng.choice(['del', 'explicit']) if self.explicit else 'del'))
                    self.live.remove(q)
                elif what < .65 and self.flush:
                    body.append(('flush',))
                    q = rng.choice(qs)
                    body.append(('if', q, [self.gate_stmt(self.live) for _ in range(rng.randint(1, 2))]))
            elif r < .34 and self.meta:
                s = self.meta_stmt(self.live, 0)
                if s is not None:
                    body.append(s)
            else:
                body.append(self.gate_stmt(self.live))
        return body

    def spec(self, nq):
        """(spec, regs sizes) using at most nq qubits."""
        rng = self.rng
        if isinstance(self.gates, (list, tuple)):
            cands = [g for g in self.gates if (g not in TWO + ROT2) or nq >= 2]
            n = rng.choice(cands)
            if n in ROT1:
                return (n, angle(rng)), [1]
            if n in ROT2:
                return (n, angle(rng)), [1, 1]
            if n in TWO:
                return (n,), [1, 1]
            return (n,), [1]
        r = rng.random()
        if self.highlevel and r < .22 and nq >= 2:
            c = rng.choice(['QFT', 'QFTdag', 'Entangle', 'UCRy', 'UCRz', 'TimeEv', 'QubitOp'])
            k = rng.randint(2, min(3, nq))
            if c in ('QFT', 'QFTdag', 'Entangle'):
                return (c,), [k]
            if c in ('UCRy', 'UCRz'):
                return (c, [rng.uniform(0, 6.2) for _ in range(1 << (k - 1))]), [k - 1, 1]
            if c == 'TimeEv':
                return ('TimeEv', rng.uniform(-2, 2), commuting_terms(rng, k)), [k]
            t = [(i, rng.choice('XYZ')) for i in range(k) if rng.random() < .8] or [(0, 'X')]
            return ('QubitOp', t, rng.choice([1, -1, 1j])), [k]
        if self.math_gates and r < .3:
            k = rng.randint(1, min(3, nq))
            c = rng.choice(['AddC', 'AddCMod', 'MulCMod', 'AddQ'])
            if c == 'AddC':
                return ('AddC', rng.randint(-5, 9)), [k]
            if c == 'AddCMod':
                N = 1 << k  # otherwise not reversible on the whole register
                return ('AddCMod', rng.randrange(N), N), [k]
            if c == 'MulCMod':
                N = 1 << k
                a = rng.choice([a for a in range(1, N) if math.gcd(a, N) == 1])
                return ('MulCMod', a, N), [k]
            if nq >= 4:
                return ('AddQ',), [2, 2]
            if nq >= 2:
                return ('AddQ',), [1, 1]
        if r < .45 or nq < 2:
            n = rng.choice(ONE)
            return (n,), [1]
        if r < .68:
            return (rng.choice(ROT1), angle(rng)), [1]
        if r < .8:
            return (rng.choice(TWO),), [1, 1]
        if r < .9:
            return (rng.choice(ROT2), angle(rng)), [1, 1]
        if not self.multi:
            return (rng.choice(ONE),), [1]
        k = rng.randint(1, min(3, nq))
        return ('U', rng.randrange(1 << 30), k), [k]

    def gate_stmt(self, live, ctrl_ok=True):
        rng = self.rng
        nq = len(live)
        spec, sizes = self.spec(nq)
        k = sum(sizes)
        qs = rng.sample(live, k)
        regs, i = [], 0
        for s in sizes:
            regs.append(qs[i:i + s])
            i += s
        free = [q for q in live if q not in qs]
        if ctrl_ok and free and self.max_controls and rng.random() < .4:
            nc = rng.randint(1, min(self.max_controls, len(free)))
            cs = rng.sample(free, nc)
            st = [1 if (not self.neg or rng.random() < .6) else 0 for _ in cs]
            return ('cgate', spec, cs, st, regs)
        form = rng.choice(['flat', 'tuple', 'list'])
        return ('gate', spec, regs, form)

    def body(self, live, depth, n=None, noempty=True):
        rng = self.rng
        out = []
        for _ in range(n or rng.randint(1, 4)):
            if depth < 3 and rng.random() < .25:
                s = self.meta_stmt(live, depth)
                if s is not None:
                    out.append(s)
                    continue
            out.append(self.gate_stmt(live))
        return out

    def block(self, live, depth, keep_ok=False):
        """A body that may use local qubits. Local qubits are returned to |0> inside (compute-like usage)."""
        rng = self.rng
        if self.ancilla and rng.random() < .25 and len(live) >= 2 and len(live) + depth < self.max_qubits + 1:
            return self.ancillas(live)
        if self.ancilla and rng.random() < .35 and len(live) >= 1 and len(live) + depth < self.max_qubits + 2:
            a = self.new('a')
            c = rng.choice(live)
            pre = [('alloc', a), ('cgate', ('X',), [c], [1], [[a]])]
            others = [q for q in live if q != c]
            mid = []
            if others:
                t = rng.choice(others)
                mid = [('cgate', self.spec1(), [a], [rng.randint(0, 1) if self.neg else 1], [[t]])]
            post = [('cgate', ('X',), [c], [1], [[a]]), ('dealloc', a, rng.choice(['del', 'explicit']) if self.explicit else 'del')]
            return pre + mid + post
        return self.body(live, depth)

    def ancillas(self, live):
        """Several local qubits that are used together, as controls of one gate and as targets of diagonal gates, and returned to |0>."""
        rng = self.rng
        k = rng.choice([2, 2, 3])
        an = [self.new('a') for _ in range(k)]
        src = [rng.choice(live) for _ in an]
        neg = lambda: rng.randint(0, 1) if self.neg else 1
        comp = []
        for a, c in zip(an, src):
            comp.append(('cgate', ('X',), [c], [neg()], [[a]]) if rng.random() < .7 else ('gate', ('X',), [[a]], 'flat'))
        rng.shuffle(comp)
        others = [q for q in live if q not in src]
        mid = []
        for _ in range(rng.randint(1, 3)):
            cs = rng.sample(an, rng.randint(1, min(k, self.max_controls or 1)))
            rng.shuffle(cs)
            rest = [a for a in an if a not in cs]
            t = None
            if others and rng.random() < .7:
                t, g = rng.choice(others), self.spec1()
            elif rest:
                t, g = rng.choice(rest), self.spec1_diag()
            if t is not None and self.max_controls:
                mid.append(('cgate', g, cs, [neg() for _ in cs], [[t]]))
            elif t is not None:
                mid.append(('gate', g, [[t]], 'flat'))
        how = lambda: rng.choice(['del', 'explicit']) if self.explicit else 'del'
        drop = [('dealloc', a, how()) for a in an]
        rng.shuffle(drop)
        return [('alloc', a) for a in an] + comp + mid + comp[::-1] + drop

    def spec1(self):
        rng = self.rng
        if isinstance(self.gates, (list, tuple)):
            c = [g for g in self.gates if g not in TWO + ROT2]
            n = rng.choice(c)
            return (n, angle(rng)) if n in ROT1 else (n,)
        return (rng.choice(ONE),) if rng.random() < .5 else (rng.choice(ROT1), angle(rng))

    def meta_stmt(self, live, depth):
        rng = self.rng
        kinds = ['control', 'compute', 'dagger'] + (['loop'] if self.loop else [])
        k = rng.choice(kinds)
        if k == 'control':
            if len(live) < 2:
                return None
            nc = rng.randint(1, min(2, len(live) - 1))
            cs = rng.sample(live, nc)
            rest = [q for q in live if q not in cs]
            st = [1 if (not self.neg or rng.random() < .5) else 0 for _ in cs]
            return ('control', cs, st, self.block(rest, depth + 1))
        if k == 'compute':
            comp = self.body(live, depth + 1)
            act_live = list(live)
            if self.ancilla and rng.random() < .4 and len(live) + depth < self.max_qubits + 2:
                a = self.new('a')
                comp = [('alloc', a)] + comp + [('cgate', ('X',), [rng.choice(live)], [rng.randint(0, 1) if self.neg else 1], [[a]])]
                # the action may use the ancilla as a control, and must not change what compute put in it
                act = [('cgate', self.spec1_diag(), [a], [1], [[rng.choice(live)]])]
                # diagonal action on the live qubits commutes with the control computation: the ancilla ends clean
                return ('compute', comp[:1] + comp[-1:], act, 'un')
            return ('compute', comp, self.body(act_live, depth + 1), 'un')
        if k == 'loop':
            return ('loop', rng.randint(1, 3), self.block(live, depth + 1))
        return ('dagger', self.block(live, depth + 1))

    def spec1_diag(self):
        rng = self.rng
        c = ['Z', 'S', 'T', 'Rz', 'R']
        if isinstance(self.gates, (list, tuple)):
            c = [x for x in c if x in self.gates] or ['Z']
        n = rng.choice(c)
        return (n, angle(rng)) if n in ('Rz', 'R') else (n,)


def commuting_terms(rng, k):
    """Hamiltonian with mutually commuting terms: products of one axis per qubit."""
    axes = [rng.choice('XYZ') for _ in range(k)]
    terms = {}
    for _ in range(rng.randint(1, 4)):
        t = tuple((i, axes[i]) for i in range(k) if rng.random() < .6)
        terms[t] = rng.uniform(-2, 2)
    return [(list(map(list, t)), c) for t, c in terms.items()]


def count_stmts(body):
    n = 0
    for st in body:
        n += 1
        for x in st:
            if isinstance(x, list) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str):
                n += count_stmts(x)
    return n


def feature_set(body):
    out = set()
    for st in body:
        out.add(st[0])
        if st[0] in ('gate', 'cgate'):
            out.add(st[1][0])
        if st[0] == 'cgate' and 0 in st[3]:
            out.add('neg')
        for x in st:
            if isinstance(x, list) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str):
                out |= {st[0] + '>' + f for f in feature_set(x) if '>' not in f}
    return out
