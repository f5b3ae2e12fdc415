"""Lockstep drivers: a simulator and the reference model execute the same history, the monitor compares them."""
import cmath
import math

import numpy as np

from . import prog, ref
from .harness import Skip, Violation
from .ref import State

PAULIS = 'XYZ'


def nprng(rng):
    return np.random.default_rng(rng.randrange(1 << 62))


def random_state(rng, n, kind=None):
    """Normalised vector: dense, sparse, basis, product-like, or with extreme amplitudes."""
    g = nprng(rng)
    N = 1 << n
    kind = kind or rng.choice(['dense', 'sparse', 'basis', 'skew', 'real'])
    if kind == 'basis':
        v = np.zeros(N, complex)
        v[rng.randrange(N)] = cmath.exp(1j * rng.uniform(0, 6.28))
        return v
    v = g.standard_normal(N) + 1j * g.standard_normal(N)
    if kind == 'real':
        v = v.real.astype(complex)
    if kind == 'sparse':
        keep = g.random(N) < .3
        if not keep.any():
            keep[rng.randrange(N)] = True
        v = v * keep
    if kind == 'skew':
        v = v * np.exp(-8 * g.random(N))
    return v / np.linalg.norm(v)


def random_terms(rng, n, nterms=None, real=True, identity=True):
    """Operator as {term: coeff} with sorted terms."""
    out = {}
    for _ in range(nterms or rng.randint(1, 4)):
        t = tuple((i, rng.choice(PAULIS)) for i in range(n) if rng.random() < .6)
        if not t and not identity:
            t = ((rng.randrange(n), rng.choice(PAULIS)),)
        c = rng.choice([1.0, -0.5, 0.25, rng.uniform(-2, 2)])
        if not real and rng.random() < .6:
            c = complex(c, rng.uniform(-1, 1))
        out[t] = c
    return out


def ref_operator(state, terms, ids, controls=()):
    """Apply the (non-unitary) operator given on ids to a copy of state, returned as a vector in the same bit order."""
    total = np.zeros_like(state.psi)
    for t, c in terms.items():
        s = state.copy()
        for i, p in t:
            s.apply(ref.PAULI[p], [ids[i]])
        total = total + c * s.psi
    return total


def random_gate(rng, nmax, kmax=5):
    """(name, k, matrix)."""
    k = min(nmax, rng.choices([1, 2, 3, 4, 5], [45, 25, 12, 9, 9])[0], kmax)
    r = rng.random()
    if k == 1 and r < .5:
        n = rng.choice(['X', 'Y', 'Z', 'H', 'S', 'T'])
        return n, 1, getattr(ref, n)
    if k == 2 and r < .3:
        return 'Swap', 2, ref.SWAP
    g = nprng(rng)
    if r < .6:
        return 'U%d' % k, k, ref.random_unitary(g, 1 << k)
    if r < .75:
        return 'D%d' % k, k, np.diag(np.exp(1j * g.uniform(0, 6.28, 1 << k)))
    if r < .9:
        p = g.permutation(1 << k)
        return 'P%d' % k, k, np.eye(1 << k, dtype=complex)[p]
    u = np.eye(1 << k, dtype=complex)
    i = rng.randrange(1 << k)
    u[i, i] = -1
    return 'R%d' % k, k, u


class Native:
    """Drives an object with the native simulator interface next to the reference."""

    def __init__(self, ctx, rng, sim, max_qubits, tol=1e-9, ids='small', kmax=5, stats=None):
        self.ctx, self.rng, self.sim, self.maxq, self.tol, self.kmax = ctx, rng, sim, max_qubits, tol, kmax
        self.ref = State()
        self.idmode = ids
        self.next = 0
        self.lastctrl = []
        self.hist = []
        self.bits = []   # (p1, value) of single-bit conditional outcomes
        self.maxctrl = 0
        self.feat = set()

    def log(self, *a):
        self.hist.append(a)
        self.feat.add(a[0])
        if len(self.hist) > 400:
            del self.hist[:200]

    def fail(self, key, msg):
        raise Violation(key, msg, history=[repr(h)[:120] for h in self.hist[-30:]], qubits=list(self.ref.names))

    # ----------------------------------------------------------------------------------------------- operations
    def newid(self):
        while True:
            if self.idmode == 'small':
                i = self.next
                self.next += 1
            else:
                i = self.rng.choice([self.rng.randrange(1 << 32), self.rng.randrange(64), (1 << 32) - 1 - self.rng.randrange(4)])
            if i not in self.ref.names:
                return i

    def alloc(self):
        i = self.newid()
        self.log('alloc', i)
        self.sim.allocate_qubit(i)
        self.ref.alloc(i)
        return i

    def gate(self):
        rng = self.rng
        n = self.ref.n
        if n == 0:
            return
        name, k, m = random_gate(rng, n, self.kmax)
        qs = rng.sample(self.ref.names, k)
        free = [q for q in self.ref.names if q not in qs]
        r = rng.random()
        if r < .35:
            ctl = []
        elif r < .7:
            ctl = [q for q in self.lastctrl if q in free]
        else:
            ctl = rng.sample(free, rng.randint(0, min(len(free), 6)))
        self.lastctrl = ctl
        self.log('gate', name, qs, ctl)
        self.feat.add('k%dc%d' % (k, len(ctl)))
        self.sim.apply_controlled_gate(m.tolist(), list(qs), list(ctl))
        self.ref.apply(m, qs, ctl)
        self.ctx.count('gates')

    def run(self):
        self.log('run')
        self.sim.run()

    def measure(self, subset=None):
        rng = self.rng
        if self.ref.n == 0:
            return
        qs = subset or rng.sample(self.ref.names, rng.randint(1, min(self.ref.n, 4)))
        if subset is None and rng.random() < .1:
            qs = list(self.ref.names)
            rng.shuffle(qs)
        res = [int(b) for b in self.sim.measure_qubits(list(qs))]
        self.log('measure', qs, res)
        if len(res) != len(qs):
            self.fail('measure-length', 'measured %d qubits, got %d results' % (len(qs), len(res)))
        for q, b in zip(qs, res):
            p1 = self.ref.p1(q)
            pb = p1 if b else 1 - p1
            if pb < 1e-10:
                self.fail('impossible-outcome', 'measuring %s of %s returned %d although its probability is %.3g' % (q, qs, b, pb))
            self.bits.append((p1, b))
            self.ref.project(q, b)
        self.ctx.count('measurements')
        if self.ref.n:
            self.compare('after-measurement')
        return res

    def remeasure(self):
        qs = self.rng.sample(self.ref.names, self.rng.randint(1, self.ref.n)) if self.ref.n else []
        if not qs:
            return
        a = self.measure(qs)
        order = list(range(len(qs)))
        self.rng.shuffle(order)
        b = [int(x) for x in self.sim.measure_qubits([qs[i] for i in order])]
        if b != [a[i] for i in order]:
            self.fail('remeasure', 'measuring %s again gave %s after %s' % (qs, b, a))
        self.compare('after-remeasurement')
        self.ctx.count('remeasurements')

    def dealloc(self, force=True):
        rng = self.rng
        if self.ref.n == 0:
            return
        q = rng.choice(self.ref.names)
        p = self.ref.p1(q)
        if 1e-12 < p < 1 - 1e-12:
            clear = 1e-6 < p < 1 - 1e-6
            if clear and rng.random() < .4:
                self.log('dealloc-refused', q)
                try:
                    self.sim.deallocate_qubit(q)
                except Exception:
                    self.ctx.count('refused_deallocations')
                    self.compare('after-refused-deallocation')
                    return
                self.fail('deallocated-superposition', 'qubit %s with P(1)=%.6g was deallocated' % (q, p))
            self.measure([q])
        self.log('dealloc', q)
        self.sim.deallocate_qubit(q)
        self.ref.dealloc(q)
        self.ctx.count('deallocations')
        self.compare('after-deallocation')

    # ----------------------------------------------------------------------------------------------- queries
    def q_probability(self):
        qs = self.rng.sample(self.ref.names, self.rng.randint(0, self.ref.n))
        bits = [self.rng.randint(0, 1) for _ in qs]
        self.log('probability', qs, bits)
        got = self.sim.get_probability([bool(b) for b in bits], list(qs))
        exp = self.ref.probability(bits, qs)
        if abs(got - exp) > 1e-10:
            self.fail('probability', 'get_probability(%s, %s) = %.12g, state says %.12g' % (bits, qs, got, exp))
        self.ctx.count('queries')

    def q_amplitude(self):
        qs = list(self.ref.names)
        self.rng.shuffle(qs)
        bits = [self.rng.randint(0, 1) for _ in qs]
        self.log('amplitude', qs, bits)
        got = complex(self.sim.get_amplitude([bool(b) for b in bits], list(qs)))
        exp = self.ref.amplitude(bits, qs)
        if abs(got - exp) > 1e-10:
            self.fail('amplitude', 'get_amplitude(%s, %s) = %s, state says %s' % (bits, qs, got, exp))
        self.ctx.count('queries')

    def _reg(self, minq=1):
        return self.rng.sample(self.ref.names, self.rng.randint(minq, min(self.ref.n, 4)))

    def q_expectation(self):
        if not self.ref.n:
            return
        qs = self._reg()
        t = random_terms(self.rng, len(qs))
        self.log('expectation', t, qs)
        got = self.sim.get_expectation_value([(list(k), c) for k, c in t.items()], list(qs))
        exp = np.vdot(self.ref.psi, ref_operator(self.ref, t, qs)).real
        if abs(got - exp) > 1e-9:
            self.fail('expectation', '<%s> on %s = %.10g, state says %.10g' % (t, qs, got, exp))
        self.ctx.count('queries')

    def e_operator(self):
        if not self.ref.n:
            return
        qs = self._reg()
        t = random_terms(self.rng, len(qs), real=False)
        new = ref_operator(self.ref, t, qs)
        nrm = np.linalg.norm(new)
        if nrm < .2:
            return
        self.log('apply-operator', t, qs)
        self.sim.apply_qubit_operator([(list(k), complex(c)) for k, c in t.items()], list(qs))
        self.ref.psi = new
        self.compare('after-operator')
        for _ in range(self.rng.choice([0, 0, 1, 2])):
            # the state need not be normalised now
            self.rng.choice([self.q_expectation, self.q_probability, self.q_amplitude, self.gate])()
        self.set_wf(self.ref.psi / nrm)
        self.ctx.count('edits')

    def set_wf(self, psi=None):
        """psi in reference order, or a random new state."""
        order = list(self.ref.names)
        self.rng.shuffle(order)
        if psi is None:
            self.ref.psi = random_state(self.rng, self.ref.n)
        else:
            self.ref.psi = psi
        v = self.ref.reorder(order)
        self.log('set_wavefunction', order)
        self.sim.set_wavefunction(np.array(v).tolist(), list(order))
        self.ctx.count('edits')
        self.compare('after-set-wavefunction')

    def e_evolve(self):
        if not self.ref.n:
            return
        qs = self._reg()
        free = [q for q in self.ref.names if q not in qs]
        ctl = self.rng.sample(free, self.rng.randint(0, min(2, len(free))))
        t = random_terms(self.rng, len(qs))
        tm = self.rng.choice([0.0, 1.0, -0.7, self.rng.uniform(-3, 3)])
        self.log('evolve', t, tm, qs, ctl)
        u = ref.expm_herm(ref.pauli_terms_matrix(t, len(qs)), tm)
        self.sim.emulate_time_evolution([(list(k), c) for k, c in t.items()], tm, list(qs), list(ctl))
        self.ref.apply(u, qs, ctl)
        self.ctx.count('edits')
        self.compare('after-time-evolution')

    def e_collapse(self):
        if not self.ref.n:
            return
        qs = self._reg()
        bits = [self.rng.randint(0, 1) for _ in qs]
        p = self.ref.probability(bits, qs)
        if 1e-14 < p < 1e-9:
            return
        self.log('collapse', qs, bits)
        if p < 1e-13:
            try:
                self.sim.collapse_wavefunction(list(qs), [bool(b) for b in bits])
            except Exception:
                self.ctx.count('rejected')
                self.compare('after-impossible-collapse')
                return
            self.fail('impossible-collapse', 'collapse to %s on %s accepted although its probability is %.3g' % (bits, qs, p))
        self.sim.collapse_wavefunction(list(qs), [bool(b) for b in bits])
        for q, b in zip(qs, bits):
            self.ref.project(q, b)
        self.ctx.count('edits')
        self.compare('after-collapse')

    def compare(self, when='state'):
        m, v = self.sim.cheat()
        m, v = dict(m), np.array(v, complex)
        names = sorted(m, key=m.get)
        if sorted(m.values()) != list(range(len(m))) or sorted(names) != sorted(self.ref.names) or len(v) != 1 << self.ref.n:
            self.fail('qubit-map:' + when, 'simulator holds qubits %s (%d amplitudes), program has %s' % (m, len(v), self.ref.names))
        r = self.ref.reorder(names)
        d = float(np.max(np.abs(v - r))) if len(r) else 0
        self.ctx.count('states_compared')
        if not d <= self.tol:
            self.fail('wrong-state:' + when, 'largest amplitude error %.3g on %d qubits' % (d, self.ref.n))


def must_reject(drv, what, fn, key=None):
    """A malformed request: must raise, and leave the state alone."""
    drv.log('malformed', what)
    try:
        r = fn()
    except (Violation, Skip):
        raise
    except Exception as e:
        drv.ctx.count('rejected')
        drv.feat.add('rej:' + what)
        drv.compare('after-rejected-' + what)
        return e
    drv.fail('accepted:' + (key or what), 'malformed request was accepted: %s -> %r' % (what, r))


class EngineRun:
    """Program through a MainEngine with a simulator backend, in lockstep with the reference."""

    def __init__(self, ctx, eng, rng, tol=1e-9, phase=False, every=4, cheat=None):
        self.ctx, self.eng, self.rng, self.tol, self.phase, self.every = ctx, eng, rng, tol, phase, every
        self.r = prog.Runner(eng)
        self.m = prog.Machine(0)
        self.n = 0
        self.done = []
        self.cheat = cheat or (lambda: eng.backend.cheat())

    def run(self, body):
        for st in body:
            self.step(st)
        self.compare()

    def measure(self, names):
        self.r.run([('measure', names), ('flush',)])
        out = []
        for n in names:
            v = int(self.r.q[n])
            p1 = self.m.state.p1(n)
            pv = p1 if v else 1 - p1
            if pv < 1e-9:
                raise Violation('impossible-outcome', 'qubit %s read %d, probability %.3g' % (n, v, pv), program=self.done[-20:])
            self.m.state.project(n, v)
            self.m.values[n] = v
            out.append(v)
        self.r.values.update(self.m.values)
        self.ctx.count('measurements', len(names))
        return out

    def step(self, st):
        self.done.append(repr(st)[:160])
        k = st[0]
        if k == 'measure':
            self.measure(st[1])
        elif k == 'dealloc':
            p = self.m.state.p1(st[1])
            if 1e-9 < p < 1 - 1e-9:
                self.measure([st[1]])
            self.r.run([st])
            self.m.state.dealloc(st[1])
        elif k == 'if':
            if self.m.values.get(st[1]) == 1:
                for s in st[2]:
                    self.step(s)
        elif k == 'flush':
            self.r.run([st])
        else:
            self.r.run([st])
            for op in self.m.flat([st]):
                self.m.prim(op)
            self.ctx.count('statements')
        self.n += 1
        if self.n % self.every == 0:
            self.compare()

    def compare(self):
        self.eng.flush()
        mp, v = self.cheat()
        v = np.array(v, complex)
        names = list(self.m.state.names)
        ids = {n: self.r.ids[n] for n in names}
        if self.eng.mapper is not None:
            ids = {n: self.eng.mapper.current_mapping[i] for n, i in ids.items()}
        if sorted(mp) != sorted(ids.values()) or len(v) != 1 << len(names):
            raise Violation('live-qubits', 'simulator holds %s, program has %s' % (dict(mp), ids), program=self.done[-20:])
        order = sorted(names, key=lambda n: mp[ids[n]])
        r = self.m.state.reorder(order)
        d = ref.phase_distance(v, r) if self.phase else float(np.max(np.abs(v - r)))
        self.ctx.count('states_compared')
        if not d <= self.tol:
            raise Violation('wrong-state', 'state differs from the program by %.3g' % d, program=self.done[-25:])
