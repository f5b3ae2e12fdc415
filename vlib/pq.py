"""ProjectQ-facing part of the harness: independent meaning of commands, and monitoring engines."""
import hashlib
import math

import numpy as np

from . import ref
from .ref import RefError, State

from projectq.cengines import BasicEngine, LastEngineException
from projectq.meta import LogicalQubitIDTag
from projectq.ops import (
    AllocateDirtyQubitGate, AllocateQubitGate, BarrierGate, DeallocateQubitGate, FlushGate, MeasureGate,
)
from projectq.types import WeakQubitRef


class UnknownGate(Exception):
    """The reference model has no meaning for this gate (harness limitation, not a violation)."""


FIXED = {'XGate': ref.X, 'YGate': ref.Y, 'ZGate': ref.Z, 'HGate': ref.H, 'SGate': ref.S, 'TGate': ref.T,
         'SqrtXGate': ref.SQRTX, 'SwapGate': ref.SWAP, 'SqrtSwapGate': ref.SQRTSWAP}


def _xx(p):
    return np.kron(p, p)


ROT = {'Rx': ref.X, 'Ry': ref.Y, 'Rz': ref.Z, 'Rxx': _xx(ref.X), 'Ryy': _xx(ref.Y), 'Rzz': _xx(ref.Z)}


def _entangle(n):
    s = State()
    cols = []
    for i in range(1 << n):
        s = State()
        for q in range(n):
            s.alloc(q)
        s.psi[:] = 0
        s.psi[i] = 1
        s.apply(ref.H, [0])
        for q in range(1, n):
            s.apply(ref.X, [q], [0])
        cols.append(s.psi)
    return np.array(cols).T


def split(x, sizes):
    out = []
    for s in sizes:
        out.append(x & ((1 << s) - 1))
        x >>= s
    return out


def join(vals, sizes):
    x, sh = 0, 0
    for v, s in zip(vals, sizes):
        x |= (v & ((1 << s) - 1)) << sh
        sh += s
    return x


def math_meaning(gate, sizes):
    """Integer meaning of the arithmetic gates, written from their documentation. None if not an arithmetic gate."""
    n = type(gate).__name__

    def add(v):
        a, b = v[0], v[1]
        s = a + b
        v = list(v)
        v[1] = s % (1 << sizes[1])
        if len(v) == 3:
            v[2] = v[2] ^ ((s >> sizes[1]) & 1)
        return v

    def sub_inv(v):  # inverse of add
        v = list(v)
        a = v[0]
        old = (v[1] - a) % (1 << sizes[1])
        if len(v) == 3:
            v[2] ^= ((a + old) >> sizes[1]) & 1
        v[1] = old
        return v

    if n == 'AddConstant':
        return lambda v: [v[0] + gate.a]
    if n == 'AddConstantModN':
        return lambda v: [(v[0] + gate.a) % gate.N] if v[0] < gate.N else None
    if n == 'MultiplyByConstantModN':
        return lambda v: [(v[0] * gate.a) % gate.N] if v[0] < gate.N else None
    if n == 'AddQuantumGate':
        return add
    if n == '_InverseAddQuantumGate':
        return sub_inv
    if n == 'SubtractQuantumGate':
        return lambda v: [v[0], v[1] - v[0]]
    if n == 'ComparatorQuantumGate':
        return lambda v: [v[0], v[1], v[2] ^ int(v[0] > v[1])]
    if n == 'MultiplyQuantumGate':
        return lambda v: [v[0], v[1], v[2] + v[0] * v[1]]
    if n == '_InverseMultiplyQuantumGate':
        return lambda v: [v[0], v[1], v[2] - v[0] * v[1]]
    return None


def gate_matrix(gate, sizes):
    """Matrix of gate on registers of the given sizes (first qubit of first register least significant)."""
    n = type(gate).__name__
    k = sum(sizes)
    if n in FIXED:
        return FIXED[n]
    if n in ROT:
        return ref.rot(ROT[n], gate.angle)
    if n == 'Ph':
        return np.exp(1j * gate.angle) * np.eye(1 << k)
    if n == 'R':
        return np.diag([1, np.exp(1j * gate.angle)])
    if n == 'DaggeredGate':
        return gate_matrix(gate.get_inverse(), sizes).conj().T
    if n in ('MatrixGate', 'BasicGateMM', 'VMatrixGate'):
        return np.asarray(gate.matrix, complex)
    if n == 'QFTGate':
        return ref.qft(k)
    if n == 'EntangleGate':
        return _entangle(k)
    if n == 'FlipBits':
        bits = gate.bits_to_flip if hasattr(gate, 'bits_to_flip') else None
        if bits is None:
            raise UnknownGate(n)
        mask = int(bits) & ((1 << k) - 1)
        return ref.perm_matrix(lambda x: x ^ mask, k)
    if n == 'TimeEvolution':
        hm = ref.pauli_terms_matrix(gate.hamiltonian.terms, k)
        return ref.expm_herm(hm, gate.time)
    if n == 'QubitOperator':
        return ref.pauli_terms_matrix(gate.terms, k)
    if n == 'UniformlyControlledRy':
        return ref.ucr('y', gate.angles, k - 1)
    if n == 'UniformlyControlledRz':
        return ref.ucr('z', gate.angles, k - 1)
    if n == 'BarrierGate':
        return np.eye(1 << k)
    f = math_meaning(gate, sizes)
    if f is not None:
        def fn(x):
            r = f(split(x, sizes))
            return x if r is None else join(r, sizes)
        return ref.perm_matrix(fn, k)
    if hasattr(gate, 'matrix') and getattr(gate, '_verif_gate', False):
        return np.asarray(gate.matrix, complex)
    raise UnknownGate(n)


def cmd_parts(cmd):
    sizes = [len(r) for r in cmd.qubits]
    targets = [q.id for r in cmd.qubits for q in r]
    ctrls = [q.id for q in cmd.control_qubits]
    cstate = [int(c) for c in cmd.control_state]
    return sizes, targets, ctrls, cstate


def cmd_kind(cmd):
    g = cmd.gate
    for cls, k in ((AllocateQubitGate, 'alloc'), (AllocateDirtyQubitGate, 'allocdirty'), (DeallocateQubitGate, 'dealloc'),
                   (MeasureGate, 'measure'), (FlushGate, 'flush'), (BarrierGate, 'barrier')):
        if isinstance(g, cls):
            return k
    return 'gate'


def cmd_repr(cmd):
    sizes, targets, ctrls, cstate = cmd_parts(cmd)
    k = cmd_kind(cmd)
    try:
        name = str(cmd.gate)
    except Exception:
        name = type(cmd.gate).__name__
    regs = [[q.id for q in r] for r in cmd.qubits]
    return '%s|%s%s' % (name if k == 'gate' else k, regs, (' c%s=%s' % (ctrls, ''.join(map(str, cstate)))) if ctrls else '')


def apply_cmd(state, cmd):
    """Apply a unitary command to a reference State keyed by qubit id."""
    sizes, targets, ctrls, cstate = cmd_parts(cmd)
    if len(cstate) != len(ctrls):
        raise RefError('control state %r does not match %d control qubits' % (cmd.control_state, len(ctrls)))
    # a control listed twice means the same as listed once when the values agree
    cmap = {}
    for c, v in zip(ctrls, cstate):
        if cmap.setdefault(c, v) != v:
            raise RefError('contradicting control values')
    state.apply(gate_matrix(cmd.gate, sizes), targets, list(cmap), list(cmap.values()))


def uhash(*parts):
    """Deterministic number in [0, 1) from the parts."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:7], 'big') / float(1 << 56)


class Lifecycle:
    """Online checker of the command stream discipline (P15)."""

    def __init__(self):
        self.live = set()
        self.ever = set()
        self.dead = set()
        self.errors = []
        self.events = 0
        self.flushes = 0
        self.max_live = 0

    def see(self, cmd, where=''):
        self.events += 1
        k = cmd_kind(cmd)
        if k == 'flush':
            self.flushes += 1
            return
        sizes, targets, ctrls, cstate = cmd_parts(cmd)
        ids = targets + ctrls
        if k in ('alloc', 'allocdirty'):
            if ctrls or len(targets) != 1:
                self.errors.append('malformed allocation %s' % cmd_repr(cmd))
            for t in targets:
                if t in self.live:
                    self.errors.append('qubit %s allocated while live %s' % (t, where))
                self.live.add(t)
                self.ever.add(t)
            self.max_live = max(self.max_live, len(self.live))
            return
        for q in ids:
            if q not in self.live:
                self.errors.append('%s uses qubit %s which is %s' % (cmd_repr(cmd), q, 'already deallocated' if q in self.ever else 'not allocated'))
        if len(set(targets)) != len(targets) or set(targets) & set(ctrls):
            self.errors.append('%s acts twice on one qubit' % cmd_repr(cmd))
        if len(cstate) != len(ctrls):
            self.errors.append('%s: control state %r for %d controls' % (cmd_repr(cmd), cmd.control_state, len(ctrls)))
        if k in ('dealloc', 'measure') and ctrls:
            self.errors.append('controlled %s' % cmd_repr(cmd))
        if k == 'dealloc':
            for t in targets:
                self.live.discard(t)
                self.dead.add(t)


class RefBackend(BasicEngine):
    """Last engine: executes the stream on the reference model with keyed measurement outcomes, and records it.

    available: None = accept everything, or predicate(cmd).
    """

    def __init__(self, seed=0, available=None, strict_dealloc=True, execute=True, native_tags=()):
        super().__init__()
        self.seed = seed
        self.available = available
        self.execute = execute
        self.state = State()
        self.life = Lifecycle()
        self.log = []
        self.outcomes = []      # (logical id, occurrence, p1, value)
        self.meas_count = {}
        self.errors = []
        self.refused = []
        self.strict_dealloc = strict_dealloc
        self.pending = []

    def is_available(self, cmd):
        if cmd_kind(cmd) != 'gate' and cmd_kind(cmd) != 'barrier':
            return True
        return True if self.available is None else bool(self.available(cmd))

    def receive(self, command_list):
        for cmd in command_list:
            self._one(cmd)

    def _one(self, cmd):
        k = cmd_kind(cmd)
        self.log.append(cmd_repr(cmd))
        if len(self.log) > 2000000:
            raise RuntimeError('event budget exhausted')
        nerr = len(self.life.errors)
        self.life.see(cmd)
        if not self.is_available(cmd):
            self.refused.append(cmd_repr(cmd))
        if not self.execute or len(self.life.errors) > nerr:
            if k != 'measure':
                return
        if k == 'alloc' or k == 'allocdirty':
            self.state.alloc(cmd.qubits[0][0].id)
        elif k == 'dealloc':
            try:
                self.state.dealloc(cmd.qubits[0][0].id)
            except RefError as e:
                self.errors.append('%s' % e)
                # keep going with the more likely value
                q = cmd.qubits[0][0].id
                v = 1 if self.state.p1(q) > .5 else 0
                self.state.project(q, v)
                self.state.dealloc(q)
        elif k == 'measure':
            for r in cmd.qubits:
                for q in r:
                    self._measure(cmd, q)
        elif k in ('flush', 'barrier'):
            pass
        else:
            try:
                apply_cmd(self.state, cmd)
            except RefError as e:
                self.errors.append('%s: %s' % (cmd_repr(cmd), e))

    def _measure(self, cmd, q):
        lid = q.id
        for t in cmd.tags:
            if isinstance(t, LogicalQubitIDTag):
                lid = t.logical_qubit_id
        occ = self.meas_count.get(lid, 0)
        self.meas_count[lid] = occ + 1
        p1 = self.state.p1(q.id) if self.execute else 0.5
        v = 1 if uhash(self.seed, lid, occ) < p1 else 0
        if p1 < 1e-9:
            v = 0
        if p1 > 1 - 1e-9:
            v = 1
        if self.execute:
            self.state.project(q.id, v)
        self.outcomes.append((lid, occ, p1, v))
        self.main_engine.set_measurement_result(WeakQubitRef(self, lid), v)


class Tap(BasicEngine):
    """Transparent recorder placed between engines; forwards everything."""

    def __init__(self, on_cmd=None, keep=True):
        super().__init__()
        self.cmds = []
        self.on_cmd = on_cmd
        self.keep = keep

    def receive(self, command_list):
        for cmd in command_list:
            if self.keep:
                self.cmds.append(cmd)
            if self.on_cmd:
                self.on_cmd(cmd)
        if not self.is_last_engine:
            self.send(command_list)


class BitBackend(BasicEngine):
    """Last engine: executes a classical (reversible) stream on many basis states at once (bit-sliced), recording it.

    init: {qubit id: array of bits} consumed by the first allocations in order of `order`.
    """

    def __init__(self, available=None):
        super().__init__()
        self.bits = {}
        self.n = 1
        self.available = available
        self.errors = []
        self.log = []
        self.life = Lifecycle()
        self.inputs = []
        self.kinds = set()

    def is_available(self, cmd):
        if cmd_kind(cmd) in ('gate', 'barrier'):
            return True if self.available is None else bool(self.available(cmd))
        return True

    def receive(self, command_list):
        for cmd in command_list:
            self._one(cmd)

    def load(self, ids, values, n):
        """Give the (already allocated) qubits ids the basis values `values` (list of ints, bit i belongs to ids[i])."""
        self.n = n
        for q in self.bits:
            if len(self.bits[q]) != n:
                self.bits[q] = np.zeros(n, np.uint8)
        for i, q in enumerate(ids):
            self.bits[q] = np.array([(v >> i) & 1 for v in values], np.uint8)

    def value(self, ids):
        out = [0] * self.n
        for i, q in enumerate(ids):
            b = self.bits[q]
            for k in range(self.n):
                out[k] |= int(b[k]) << i
        return out

    def _one(self, cmd):
        k = cmd_kind(cmd)
        self.log.append(cmd_repr(cmd))
        nerr = len(self.life.errors)
        self.life.see(cmd)
        if k in ('flush', 'barrier'):
            return
        if len(self.life.errors) > nerr:
            return
        if not self.is_available(cmd):
            self.errors.append('unsupported %s' % cmd_repr(cmd))
            return
        sizes, targets, ctrls, cstate = cmd_parts(cmd)
        if k in ('alloc', 'allocdirty'):
            self.bits[targets[0]] = np.zeros(self.n, np.uint8)
        elif k == 'dealloc':
            b = self.bits.pop(targets[0])
            if len(set(b.tolist())) > 1 or b.any():
                self.errors.append('work qubit %s released in state |1> on %d of %d basis states' % (targets[0], int(b.sum()), self.n))
        elif k == 'measure':
            self.main_engine.set_measurement_result(cmd.qubits[0][0], int(self.bits[targets[0]][0]))
        else:
            mask = np.ones(self.n, np.uint8)
            for c, v in zip(ctrls, cstate):
                mask &= self.bits[c] if v else 1 - self.bits[c]
            name = type(cmd.gate).__name__
            self.kinds.add((name, len(ctrls)))
            if name == 'XGate':
                self.bits[targets[0]] = self.bits[targets[0]] ^ mask
            elif name == 'SwapGate':
                a, b = targets
                d = (self.bits[a] ^ self.bits[b]) & mask
                self.bits[a] = self.bits[a] ^ d
                self.bits[b] = self.bits[b] ^ d
            else:
                f = math_meaning(cmd.gate, sizes)
                if f is None:
                    self.errors.append('non-classical %s' % cmd_repr(cmd))
                    return
                vals = [self.value([q.id for q in r]) for r in cmd.qubits]
                new = [list(v) for v in vals]
                for i in range(self.n):
                    if mask[i]:
                        r = f([v[i] for v in vals])
                        if r is None:
                            continue
                        for j, x in enumerate(r):
                            new[j][i] = x
                for r, v in zip(cmd.qubits, new):
                    for i, q in enumerate(r):
                        self.bits[q.id] = np.array([(x >> i) & 1 for x in v], np.uint8)


class Note:
    """A tag of some other engine, unknown to everybody else."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Note) and o.n == self.n

    def __ne__(self, o):
        return not self == o


def notes(rng=None):
    """An engine which adds tags, before or behind those that are there."""
    from projectq.cengines import CommandModifier
    n = [0]
    where = rng.choice(['before', 'behind', 'both', 'turns']) if rng else 'turns'

    def add(cmd):
        n[0] += 1
        w = where if where != 'turns' else ('before', 'behind', 'none', 'both')[n[0] % 4]
        cmd.tags = ([Note(-n[0])] if w in ('before', 'both') else []) + list(cmd.tags) + ([Note(n[0])] if w in ('behind', 'both') else [])
        return cmd
    return CommandModifier(add)
