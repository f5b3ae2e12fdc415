"""C26: oracle synthesis implements the given Boolean function or permutation."""
import sys
import types

import numpy as np

from vlib import ref
from vlib.harness import Job, Violation
from vlib.pq import RefBackend, cmd_repr

RULE = ('all functions of up to three variables and all permutations of up to two bits, random ones of up to six variables / five bits, as integers, as Python functions, with default and '
        'custom synthesis commands, on registers given in every form, plain, controlled, inverted and inside Compute/Uncompute; a stand-in for the synthesis '
        'library (truth tables as text of hexadecimal digits, one digit per four rows) synthesises them independently; the resulting unitary, from the executed commands, is compared with '
        'the function or permutation; arguments that do not fit have to be refused without any command')
ASSUMPTIONS = ['RevKit and dormouse are not installed: a stand-in with their documented interface is used', 'truth tables of fewer than two variables cannot be written in hexadecimal digits and may be refused',
               'phase oracles up to a global phase']
MIN = dict(control=400, phase=300, permutation=200, refused=150, tables=700)


class Fake(types.ModuleType):
    """Stand-in for revkit: one function or permutation, one circuit."""

    def __init__(self):
        super().__init__('revkit')
        self.log, self.table, self.permu, self.gates, self.lines = [], None, None, None, 0

    # -- inputs
    def perm(self, permutation):
        self.log.append(('perm', permutation))
        self.permu = [int(x) for x in permutation.split()]
        self.gates = None

    def tt(self, table):
        self.log.append(('tt', table))
        if table.startswith('0x'):
            digits = table[2:]
            bits = ''.join(format(int(ch, 16), '04b') for ch in digits)
        else:
            bits = table
        if not bits or len(bits) & (len(bits) - 1):
            raise RuntimeError('[e] number of bits is not a power of two: %s' % table)
        self.table = [int(b) for b in reversed(bits)]
        self.nvars = len(bits).bit_length() - 1
        self.gates = None

    # -- synthesis
    def tbs(self):
        """Transformation based synthesis, from the output side."""
        p = list(self.permu)
        n = len(p).bit_length() - 1
        out = []

        def apply(ctrl, t):
            for i, v in enumerate(p):
                if v & ctrl == ctrl:
                    p[i] = v ^ (1 << t)
            out.append(([(k, 1) for k in range(n) if ctrl >> k & 1], t))
        for i in range(len(p)):
            for t in range(n):
                if i >> t & 1 and not p[i] >> t & 1:
                    apply(p[i], t)
            for t in range(n):
                if p[i] >> t & 1 and not i >> t & 1:
                    apply(p[i] & ~(1 << t), t)
        self.gates, self.lines = [('X', c, t) for c, t in reversed(out)], n
        self.log.append('tbs')

    def dbs(self):
        self.tbs()
        self.log.append('dbs')

    def esopbs(self):
        n = self.nvars
        self.gates = [('X', [(k, i >> k & 1) for k in range(n)], n) for i, b in enumerate(self.table) if b]
        self.lines = n + 1
        self.log.append('esopbs')

    def esopps(self):
        n = self.nvars
        self.gates = [('Z', [(k, i >> k & 1) for k in range(n)], None) for i, b in enumerate(self.table) if b]
        self.lines = n
        self.log.append('esopps')

    def ps(self, mct=False, silent=False):
        return dict(qubits=self.lines, gates=len(self.gates))

    def to_projectq(self, mct=False):
        if self.gates is None:
            raise RuntimeError('[e] no circuit')
        code = ''
        for g, c, t in self.gates:
            neg = [k for k, v in c if not v]
            flip = 'All(X) | [%s]\n' % ', '.join('qs[%d]' % k for k in neg) if neg else ''
            code += flip
            on = ['qs[%d]' % k for k, v in c] + ([] if t is None else ['qs[%d]' % t])
            k = len(on) - 1
            code += '%s | (%s,)\n' % (g if k == 0 else 'C(%s)' % g if k == 1 else 'C(%s, %d)' % (g, k), ', '.join(on))
            code += flip
        return code


def to_truth_table(f):
    n = f.__code__.co_argcount
    return sum(bool(f(*[bool(i >> k & 1) for k in range(n)])) << i for i in range(1 << n))


def install():
    fake = Fake()
    sys.modules['revkit'] = fake
    d = types.ModuleType('dormouse')
    d.to_truth_table = to_truth_table
    sys.modules['dormouse'] = d
    return fake


def engine():
    from projectq import MainEngine
    be = RefBackend(seed=1)
    return MainEngine(backend=be, engine_list=[], verbose=True), be


def forms(rng, eng, n):
    """A register of n qubits in one of the accepted forms: (qubits, argument)."""
    k = rng.choice(['qureg', 'tuple', 'split', 'singles', 'listq'])
    if k == 'singles':
        qs = [eng.allocate_qubit() for _ in range(n)]
        return [q[0] for q in qs], tuple(qs)
    r = eng.allocate_qureg(n)
    if k == 'qureg':
        return list(r), r
    if k == 'listq':
        return list(r), [q for q in r]
    if k == 'tuple' or n < 2:
        return list(r), tuple(r)
    s = rng.randint(1, n - 1)
    return list(r), (r[:s], r[s:] if rng.random() < .5 else list(r[s:]))


def run(rng, oracle, n, mode):
    """Unitary of the oracle on n qubits (LSB = first qubit), from its action on random states."""
    from projectq.meta import Compute, Control, Dagger, Uncompute
    from projectq.ops import MatrixGate
    eng, be = engine()
    qs, arg = forms(rng, eng, n)
    extra = eng.allocate_qubit() if mode == 'control' else []
    ids = [q.id for q in qs] + [q.id for q in extra]
    r = np.random.RandomState(rng.randrange(2**31))
    v = r.normal(size=1 << len(ids)) + 1j * r.normal(size=1 << len(ids))
    v /= np.linalg.norm(v)
    eng.flush()
    be.state.reorder(ids)
    # prepare v: one big matrix gate on all qubits
    h = v.copy()
    phase = h[0] / abs(h[0])
    w = np.zeros_like(v)
    w[0] = phase
    d = w - v
    u = np.eye(len(v), dtype=complex)
    if np.linalg.norm(d) > 1e-12:
        d /= np.linalg.norm(d)
        u -= 2 * np.outer(d, d.conj())
    u = u * phase
    MatrixGate(u) | (list(qs) + list(extra),)
    start = len(be.log)
    if mode == 'control':
        with Control(eng, extra):
            oracle | arg
    elif mode == 'dagger':
        with Dagger(eng):
            oracle | arg
    elif mode == 'compute':
        with Compute(eng):
            oracle | arg
        Uncompute(eng)
    else:
        oracle | arg
    eng.flush()
    if be.errors:
        raise Violation('stream-error', be.errors[0])
    got = np.array(be.state.reorder(ids))
    log = be.log[start:]
    for q in qs + list(extra):
        q.id = -1
    return v, got, log


def verify(ctx, key, what, v, got, perm, phase, n, mode, log):
    """perm: output basis state of each input; phase: its sign."""
    N = 1 << n
    exp = v.copy()
    lo = N if mode == 'control' else 0
    if mode == 'dagger':
        inv = [0] * N
        for i, p in enumerate(perm):
            inv[p] = i
        perm = inv
    if mode != 'compute':
        for i in range(N):
            exp[lo + perm[i]] = v[lo + i] * phase[i]
    d = ref.phase_distance(got, exp) if key == 'phase' and mode != 'control' else np.abs(got - exp).max()
    if d > 1e-10:
        raise Violation(key, '%s (%s) acts wrongly: deviation %.3g' % (what, mode, d), log=log[:60])
    ctx.count(key)


def pyfunc(n, table):
    args = ', '.join('x%d' % i for i in range(n))
    src = 'def f(%s):\n    return bool(%d >> (%s) & 1)\n' % (args, table, ' + '.join('(x%d << %d)' % (i, i) for i in range(n)))
    ns = {}
    exec(src, ns)
    return ns['f']


def refuse(ctx, rng, what, make, exc):
    """make(arg) has to fail without emitting a command; the engine still works."""
    from projectq.ops import X
    eng, be = engine()
    n, build = make
    qs, arg = forms(rng, eng, n)
    eng.flush()
    start = len(be.log)
    try:
        build() | arg
    except exc:
        pass
    else:
        raise Violation('accepted', '%s on %d qubits was accepted' % (what, n), log=be.log[start:])
    eng.flush()
    rest = [x for x in be.log[start:] if 'flush' not in str(x)]
    if rest:
        raise Violation('altered', 'commands were sent by a refused oracle: %s' % rest[:5])
    X | qs[0]
    eng.flush()
    ctx.count('refused')
    for q in qs:
        q.id = -1


def case(ctx, rng, idx):
    fake = install()
    from projectq.libs.revkit import ControlFunctionOracle, PermutationOracle, PhaseOracle
    kind = ['control', 'phase', 'permutation', 'refuse'][idx % 4]
    i = idx // 4
    if ctx.shard % 2:
        i += 150
    mode = rng.choice(['plain', 'plain', 'plain', 'control', 'dagger', 'compute'])
    calls = []
    if kind in ('control', 'phase'):
        small = [(n, f) for n in range(1, 4) for f in range(1 << (1 << n))]
        if i < len(small):
            n, f = small[i]
        else:
            n = rng.choice([2, 3, 4, 4, 5, 5, 6])
            f = rng.getrandbits(1 << n)
            if rng.random() < .3:
                f >>= rng.randint(0, (1 << n) - 1)      # leading zeros
            if rng.random() < .1:
                f = rng.choice([0, 1, (1 << (1 << n)) - 1, 1 << (1 << n) - 1])
        cls, default = (ControlFunctionOracle, fake.esopbs) if kind == 'control' else (PhaseOracle, fake.esopps)
        how = rng.choice(['int', 'int', 'python', 'synth'])
        if kind == 'phase' and f & 1 and rng.random() < .7:
            f &= ~1
        arg = pyfunc(n, f) if how == 'python' else f
        kw = {}
        if how == 'synth':
            kw['synth'] = lambda: (calls.append(1), default())
        o = cls(arg, **kw)
        w = n + (kind == 'control')
        what = '%s(0x%x) of %d variables [%s]' % (cls.__name__, f, n, how)
        ctx.describe(what)
        try:
            v, got, log = run(rng, o, w, mode)
        except RuntimeError as e:
            if n < 2 and 'does not match' in str(e):
                ctx.count('refused_small')
                return
            raise Violation('refused-valid', '%s was refused: %s' % (what, e), table=fake.log)
        N = 1 << w
        if kind == 'control':
            perm = [x ^ ((f >> (x & ((1 << n) - 1)) & 1) << n) for x in range(N)]
            ph = [1] * N
        else:
            perm = list(range(N))
            ph = [-1 if f >> x & 1 else 1 for x in range(N)]
        verify(ctx, kind, what, v, got, perm, ph, w, mode, log)
        if how == 'synth' and not calls:
            raise Violation('synth-ignored', 'the given synthesis command was not used')
        ctx.count('tables')
        ctx.sig(kind, n, f, how, mode)
    elif kind == 'permutation':
        import itertools
        small = [(0, 1), (1, 0)] + list(itertools.permutations(range(4)))
        if i < len(small):
            p = list(small[i])
        else:
            p = list(range(1 << rng.choice([2, 3, 3, 4, 5])))
            rng.shuffle(p)
            if rng.random() < .2:
                p = sorted(p)
                a, b = rng.sample(range(len(p)), 2)
                p[a], p[b] = p[b], p[a]
        n = len(p).bit_length() - 1
        kw = {}
        how = rng.choice(['default', 'synth', 'dbs'])
        if how == 'synth':
            kw['synth'] = lambda: (calls.append(1), fake.tbs())
        elif how == 'dbs':
            kw['synth'] = fake.dbs
        rep = rng.choice([list, tuple, np.array])
        before = list(p)
        o = PermutationOracle(rep(p), **kw)
        what = 'PermutationOracle(%s)' % p
        v, got, log = run(rng, o, n, mode)
        verify(ctx, kind, what, v, got, p, [1] * len(p), n, mode, log)
        if how == 'synth' and not calls or how == 'dbs' and 'dbs' not in fake.log:
            raise Violation('synth-ignored', 'the given synthesis command was not used')
        if p != before:
            raise Violation('argument-changed', 'the permutation was changed')
        ctx.sig(kind, tuple(p), how, mode)
    else:
        n = rng.randint(1, 5)
        k = rng.choice(['big', 'big', 'neg', 'dup', 'gap', 'size', 'fewer', 'start'])
        cls = rng.choice([ControlFunctionOracle, PhaseOracle])
        vars_ = n - (cls is ControlFunctionOracle)
        if k == 'big':
            f = (1 << (1 << vars_)) + rng.choice([0, 0, 1, rng.getrandbits(5)])
            refuse(ctx, rng, '%s(0x%x)' % (cls.__name__, f), (n, lambda: cls(f)), AttributeError)
        elif k == 'neg':
            f = -rng.choice([1, 2, 8, 42, 1 << (1 << vars_)])
            refuse(ctx, rng, '%s(%d)' % (cls.__name__, f), (n, lambda: cls(f)), AttributeError)
        else:
            p = list(range(1 << n))
            rng.shuffle(p)
            if k == 'dup':
                a, b = rng.sample(range(len(p)), 2)
                p[a] = p[b]
            elif k == 'gap':
                p[p.index(len(p) - 1)] = len(p) + rng.randint(0, 3)
            elif k == 'start':
                p = [x + 1 for x in p]
            elif k == 'size':
                p = [x for x in range(rng.choice([x for x in range(1, 40) if x & (x - 1)]))]
                rng.shuffle(p)
            elif k == 'fewer':
                p = list(range(1 << rng.choice([x for x in range(1, 6) if x != n])))
            refuse(ctx, rng, 'PermutationOracle(%s)' % p, (n, lambda: PermutationOracle(p)), AttributeError)
        ctx.sig('refuse', k, n, idx)


JOBS = dict(oracle=Job(case, 2600, 30000, shards=4))
