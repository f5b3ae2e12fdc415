"""Independent reference semantics (numpy only; no ProjectQ code).

Bit order convention (documented behaviour of both simulators): for an operator on targets t_0..t_{k-1}, bit i of the
matrix index belongs to t_i (t_0 least significant).
"""
import cmath
import math

import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]], complex)
Z = np.array([[1, 0], [0, -1]], complex)
H = np.array([[1, 1], [1, -1]], complex) / math.sqrt(2)
S = np.diag([1, 1j]).astype(complex)
T = np.diag([1, cmath.exp(1j * math.pi / 4)]).astype(complex)
SQRTX = 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]], complex)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], complex)
SQRTSWAP = np.array([[1, 0, 0, 0], [0, .5 + .5j, .5 - .5j, 0], [0, .5 - .5j, .5 + .5j, 0], [0, 0, 0, 1]], complex)
PAULI = {'X': X, 'Y': Y, 'Z': Z, 'I': I2}


def kron_le(mats):
    """Tensor product with mats[0] on the least significant bit."""
    out = np.eye(1, dtype=complex)
    for m in mats:
        out = np.kron(m, out)
    return out


def rot(pauli, angle):
    n = pauli.shape[0]
    return math.cos(angle / 2) * np.eye(n) - 1j * math.sin(angle / 2) * pauli


def qft(n):
    """Quantum Fourier transform without the final swaps (as documented for the QFT of ProjectQ): output bits reversed."""
    N = 1 << n
    w = np.exp(2j * math.pi / N)
    idx = np.arange(N)
    rev = np.array([int(format(i, '0%db' % n)[::-1], 2) if n else 0 for i in range(N)])
    return (w ** np.outer(idx, idx) / math.sqrt(N))[rev]


def pauli_terms_matrix(terms, n):
    """terms: dict {((idx, 'X'), ...): coeff} on n qubits (qubit 0 least significant)."""
    out = np.zeros((1 << n, 1 << n), complex)
    for term, coeff in terms.items():
        ms = [I2] * n
        for idx, p in term:
            ms[idx] = PAULI[p] @ ms[idx] if ms[idx] is not I2 else PAULI[p]
        out += coeff * kron_le(ms)
    return out


def expm_herm(hmat, t):
    w, v = np.linalg.eigh(hmat)
    return (v * np.exp(-1j * w * t)) @ v.conj().T


def random_unitary(rng, n):
    """Haar unitary of dimension n from a numpy Generator."""
    z = (rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))) / math.sqrt(2)
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def ucr(kind, angles, nctrl):
    """Uniformly controlled rotation on qubits (control bits..., target): target is the most significant bit."""
    n = 1 << nctrl
    out = np.zeros((2 * n, 2 * n), complex)
    p = {'y': Y, 'z': Z}[kind]
    for k in range(n):
        r = rot(p, angles[k])
        for a in range(2):
            for b in range(2):
                out[a * n + k, b * n + k] = r[a, b]
    return out


def perm_matrix(fn, n):
    N = 1 << n
    out = np.zeros((N, N), complex)
    for i in range(N):
        out[fn(i), i] = 1
    return out


class RefError(Exception):
    pass


class State:
    """State vector over an ordered list of qubit names; names[0] is bit 0."""

    def __init__(self):
        self.names = []
        self.psi = np.ones(1, complex)

    def copy(self):
        s = State()
        s.names = list(self.names)
        s.psi = self.psi.copy()
        return s

    @property
    def n(self):
        return len(self.names)

    def alloc(self, name):
        if name in self.names:
            raise RefError('already allocated %r' % (name,))
        self.names.append(name)
        self.psi = np.concatenate([self.psi, np.zeros_like(self.psi)])

    def pos(self, name):
        try:
            return self.names.index(name)
        except ValueError:
            raise RefError('unknown qubit %r' % (name,)) from None

    def _tensor(self):
        return self.psi.reshape((2,) * self.n) if self.n else self.psi.reshape(())

    def apply(self, mat, targets, controls=(), cstate=None):
        """Apply mat to targets conditioned on controls having the values cstate (default all 1)."""
        if len(set(targets) | set(controls)) != len(targets) + len(controls):
            raise RefError('repeated qubit')
        k = len(targets)
        if mat.shape != (1 << k, 1 << k):
            raise RefError('gate dimension %s on %d qubits' % (mat.shape, k))
        n = self.n
        if cstate is None:
            cstate = [1] * len(controls)
        t = self._tensor()
        ax = lambda q: n - 1 - self.pos(q)
        index = [slice(None)] * n
        for c, v in zip(controls, cstate):
            index[ax(c)] = int(v)
        index = tuple(index)
        sub = t[index]
        # axes of targets inside sub
        caxes = sorted(ax(c) for c in controls)
        def subax(q):
            a = ax(q)
            return a - sum(1 for c in caxes if c < a)
        taxes = [subax(q) for q in reversed(targets)]  # most significant first
        if k == 0:
            new = mat[0, 0] * sub
        else:
            m = mat.reshape((2,) * (2 * k))
            new = np.tensordot(m, sub, axes=(list(range(k, 2 * k)), taxes))
            new = np.moveaxis(new, list(range(k)), taxes)
        t = t.copy()
        t[index] = new
        self.psi = t.reshape(-1)

    def apply_perm(self, fn, targets, controls=(), cstate=None):
        """fn maps basis integers of targets (t_0 least significant) to basis integers."""
        k = len(targets)
        self.apply(perm_matrix(fn, k), targets, controls, cstate)

    def p1(self, name):
        a = np.moveaxis(self._tensor(), self.n - 1 - self.pos(name), 0)
        return float(np.sum(np.abs(a[1]) ** 2) / np.sum(np.abs(self.psi) ** 2))

    def project(self, name, value):
        a = self._tensor().copy()
        idx = [slice(None)] * self.n
        idx[self.n - 1 - self.pos(name)] = 1 - value
        a[tuple(idx)] = 0
        a = a.reshape(-1)
        self.psi = a / np.linalg.norm(a)

    def dealloc(self, name, tol=1e-7):
        p = self.p1(name)
        if p > tol and p < 1 - tol:
            raise RefError('deallocating qubit %r in superposition (p1=%g)' % (name, p))
        v = 1 if p > .5 else 0
        a = np.moveaxis(self._tensor(), self.n - 1 - self.pos(name), 0)[v]
        self.names.remove(name)
        self.psi = a.reshape(-1).copy()
        return v

    def reorder(self, names):
        """State vector with names[0] least significant."""
        if sorted(map(str, names)) != sorted(map(str, self.names)):
            raise RefError('different qubits %s vs %s' % (names, self.names))
        n = self.n
        perm = [n - 1 - self.pos(q) for q in reversed(names)]
        return self._tensor().transpose(perm).reshape(-1) if n else self.psi

    def amplitude(self, bits, names):
        idx = sum(int(b) << i for i, b in enumerate(bits))
        return self.reorder(names)[idx]

    def probability(self, bits, names):
        a = self._tensor()
        idx = [slice(None)] * self.n
        for b, q in zip(bits, names):
            idx[self.n - 1 - self.pos(q)] = int(b)
        return float(np.sum(np.abs(a[tuple(idx)]) ** 2))


def phase_distance(a, b):
    """|| a - e^{i phi} b || minimised over phi."""
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    if a.shape != b.shape:
        return float('inf')
    ov = np.vdot(b, a)
    ph = ov / abs(ov) if abs(ov) > 1e-12 else 1
    return float(np.linalg.norm(a - ph * b))
