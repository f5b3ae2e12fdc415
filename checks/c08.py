"""C08: inverse, merge, identity and equality of gates agree with the operators."""
import copy
import itertools
import math

import numpy as np

from vlib import prog, ref, simdrv
from vlib.harness import Job, Violation
from vlib.pq import RefBackend, UnknownGate, gate_matrix, join, split

RULE = ('pairs of gates from every family (related parameters: equal, opposite, period-shifted, scaled, reordered), compared through operators '
        'obtained from their parameters; each law (inverse, double inverse, merge, identity, equality, hash, copy, operand unchanged) checked on '
        'every pair; non-trivial by family pair, laws that applied and outcome')
ASSUMPTIONS = ['operators computed from the gate parameters by an independent model; arithmetic gates through their integer function on the documented domain',
               'tolerance 1e-7 for equality of gates compared with a tolerance, 1e-8 otherwise']
MIN = dict(inverses=500, merges=200, equal_pairs=300, identities=30)


class Sem:
    """Operator of a gate on registers of given sizes: a matrix, or a partial map of basis states."""

    def __init__(self, m=None, pmap=None):
        self.m, self.p = m, pmap

    def dag(self):
        if self.p is not None:
            return Sem(pmap={v: k for k, v in self.p.items()})
        return Sem(self.m.conj().T)

    def after(self, first):
        if self.p is not None or first.p is not None:
            a, b = first.as_map(), self.as_map()
            return Sem(pmap={k: b[v] for k, v in a.items() if v in b})
        return Sem(self.m @ first.m)

    def as_map(self):
        if self.p is not None:
            return self.p
        return {j: int(np.argmax(np.abs(self.m[:, j]))) for j in range(self.m.shape[0])}

    def dist(self, other):
        if self.p is not None or other.p is not None:
            a, b = self.as_map(), other.as_map()
            keys = set(a) & set(b)
            return float(sum(a[k] != b[k] for k in keys))
        if self.m.shape != other.m.shape:
            return float('inf')
        return float(np.max(np.abs(self.m - other.m)))


def sem(gate, sizes):
    from projectq.ops import BasicMathGate, DaggeredGate, MatrixGate
    n = type(gate).__name__
    if isinstance(gate, DaggeredGate):
        s = sem(gate.get_inverse(), sizes).dag()
        if hasattr(gate, 'matrix'):
            d = s.dist(Sem(np.asarray(gate.matrix, complex)))
            if d > 1e-10:
                raise Violation('dagger-matrix', 'matrix of %s differs from the adjoint by %.3g' % (gate, d))
        return s
    if isinstance(gate, BasicMathGate):
        class Q:
            pass
        regs = [[Q() for _ in range(s)] for s in sizes]
        f = gate.get_math_function(regs)
        dom = None
        if n in ('AddConstantModN', 'MultiplyByConstantModN'):
            dom = lambda v: v[0] < gate.N
        elif n == 'DivideQuantumGate':
            dom = lambda v: v[1] == 0 and 0 < v[2] <= v[0]
        elif n == '_InverseDivideQuantumGate':
            dom = lambda v: v[0] < v[2] and v[1] > 0 and v[0] + v[1] * v[2] < (1 << sizes[0])
        out = {}
        for x in range(1 << sum(sizes)):
            v = split(x, sizes)
            if dom is None or dom(v):
                out[x] = join([int(a) for a in f(list(v))], sizes)
        return Sem(pmap=out)
    if isinstance(gate, MatrixGate):
        return Sem(np.asarray(gate.matrix, complex))
    m = gate_matrix(gate, sizes)
    return Sem(m)


def build(rng):
    """(family, [gates with related parameters], sizes)"""
    import projectq.ops as o
    import projectq.libs.math as m
    fam = rng.choice(['fixed', 'fixed', 'rot', 'rot', 'phase', 'two', 'matrix', 'ucr', 'timeev', 'timeev', 'qop', 'qop', 'flip', 'addc', 'modc', 'mulc',
                      'qmath', 'user', 'dagger', 'prep', 'mixed'])
    if fam == 'fixed':
        k = ['X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX', 'SqrtXdag']
        return fam, [prog.spec_gate((rng.choice(k),)) for _ in range(3)] + [o.Barrier], [1]
    if fam == 'two':
        k = ['Swap', 'SqrtSwap', 'SqrtSwapdag', 'Entangle', 'QFT', 'QFTdag']
        g = [prog.spec_gate((rng.choice(k),)) for _ in range(3)]
        return fam, g, [2]
    if fam in ('rot', 'phase'):
        names = ['Rx', 'Ry', 'Rz'] if rng.random() < .6 else ['Rxx', 'Ryy', 'Rzz']
        if fam == 'phase':
            names = ['R', 'Ph']
        a = rng.choice([0.0, math.pi, 2 * math.pi, 4 * math.pi, -math.pi, math.pi / 2, 1e-13, 4 * math.pi - 1e-13, 1e-9, 3 * math.pi, 6 * math.pi,
                        round(rng.uniform(-30, 30), 6), round(rng.uniform(0, 13), 6)])
        per = 4 * math.pi if fam == 'rot' else 2 * math.pi
        rel = [a, -a, per - a, a + per * rng.choice([1, -1, 2]), a + math.pi * 2, per / 2 - a, a / 2, a + 1e-6, round(rng.uniform(-30, 30), 6)]
        one = rng.choice(names)
        gs = [getattr(o, one)(rng.choice(rel)) for _ in range(3)] + [getattr(o, rng.choice(names))(rng.choice(rel))]
        return fam, gs, [1] if names[0] in ('Rx',) or fam == 'phase' else [2]
    if fam == 'matrix':
        k = rng.choice([1, 1, 2])
        u = ref.random_unitary(np.random.default_rng(rng.randrange(1 << 30)), 1 << k)
        g = [o.MatrixGate(u), o.MatrixGate(u + rng.choice([0, 1e-14, 1e-6, 1e-3])), o.MatrixGate(np.asmatrix(u)), o.MatrixGate(u.conj().T.tolist())]
        base = rng.choice([o.X, o.Y, o.Z, o.H, o.S, o.T, o.Rx(rng.uniform(0, 6)), o.R(1.1), o.Ph(.4)] if k == 1 else [o.Swap, o.SqrtSwap, o.Rzz(.3)])
        g += [o.MatrixGate(base.matrix), base]
        return fam, g, [k]
    if fam == 'ucr':
        k = rng.randint(1, 2)
        a = [round(rng.uniform(-13, 13), 6) for _ in range(1 << k)]
        if rng.random() < .3:
            a = [rng.choice([0, 2 * math.pi, 4 * math.pi]) for _ in a]
        b = [-x for x in a]
        c = [x + 4 * math.pi for x in a]
        d = list(a)
        d[rng.randrange(len(d))] += rng.choice([.5, 2 * math.pi])
        cls = o.UniformlyControlledRy if rng.random() < .5 else o.UniformlyControlledRz
        g = [cls(x) for x in rng.sample([a, b, c, d, list(a)], 3)] + [rng.choice([o.UniformlyControlledRy, o.UniformlyControlledRz])(a)]
        return fam, g, [k, 1]
    if fam == 'timeev':
        k = rng.randint(1, 3)
        t = simdrv.random_terms(rng, k)
        if rng.random() < .15:
            t = {(): rng.uniform(-2, 2)}

        def ham(terms, f=1, order=None):
            h = o.QubitOperator()
            for a in order or terms:
                h += o.QubitOperator(a, terms[a] * f)
            return h
        x = round(rng.uniform(-3, 3), 6)
        f = rng.choice([2.0, -1.0, .5, -3.0])
        t2 = dict(t)
        kk = rng.choice(list(t2))
        t2[kk] += rng.choice([.3, -t2[kk] if len(t2) > 1 else .7, -2 * t2[kk]])
        if rng.random() < .3 and len(t2) > 1:
            del t2[kk]
        order = list(t)
        rng.shuffle(order)
        if rng.random() < .3:
            # the same evolution with other units of time and energy, proportional or not
            u = rng.choice([1e9, 1e-9, 1e6, -1e-7])
            ts = [x, -x, 2 * x]
            return fam, [o.TimeEvolution(rng.choice(ts), ham(t)), o.TimeEvolution(rng.choice(ts) / u, ham(t, u)), o.TimeEvolution(rng.choice(ts) / u, ham(t2, u)),
                         o.TimeEvolution(rng.choice(ts) * u, ham(t2, 1 / u))], [k]
        hs = [ham(t), ham(t, f), ham(t, 1, order), ham(t2), ham(simdrv.random_terms(rng, k))]
        g = [o.TimeEvolution(rng.choice([x, -x, x / f, 2 * x, 0, round(rng.uniform(-3, 3), 6)]), rng.choice(hs)) for _ in range(4)]
        return fam, g, [k]
    if fam == 'qop':
        k = rng.randint(1, 3)

        def term():
            t = [(i, rng.choice('XYZ')) for i in range(k) if rng.random() < .7]
            rng.shuffle(t)
            return tuple(t)
        t = term()
        c = rng.choice([1, -1, 1j, -1j, np.exp(1j * rng.uniform(0, 6)), np.exp(1j * rng.choice([1e-7, -4e-7, 3e-6]))])
        g = [o.QubitOperator(t, c), o.QubitOperator(tuple(reversed(t)), c), o.QubitOperator(t, rng.choice([1, -1, 1j, c * (1 + 1e-13), c * 1.001])),
             o.QubitOperator(term(), rng.choice([1, 1j])), o.QubitOperator(t, rng.choice([2.0, .5]))]
        if rng.random() < .2:
            g.append(o.QubitOperator(t, .6) + o.QubitOperator(term(), .8))
        return fam, rng.sample(g, 4), [k]
    if fam == 'flip':
        w = rng.randint(1, 3)
        b = [rng.randint(0, 1) for _ in range(w)]
        i = sum(x << j for j, x in enumerate(b))
        g = [o.FlipBits(b), o.FlipBits(i), o.FlipBits(''.join(map(str, b))), o.FlipBits([bool(x) for x in b]), o.FlipBits(-i - 1), o.FlipBits(rng.randrange(8)),
             o.FlipBits(-1)]
        return fam, rng.sample(g, 4), [3]
    w = rng.randint(1, 4)
    if fam == 'addc':
        a = rng.choice([0, 1, 3, -2, 1 << w, (1 << w) - 1])
        g = [m.AddConstant(a), m.SubConstant(a), m.AddConstant(-a), m.AddConstant(a + (1 << w)), m.AddConstant(rng.randrange(16)), m.AddConstant(float(a) if False else a)]
        return fam, rng.sample(g, 4), [w]
    if fam == 'modc':
        N = rng.randint(1, 1 << w)
        a = rng.randrange(N)
        N2 = rng.randint(1, 1 << w)
        g = [m.AddConstantModN(a, N), m.SubConstantModN(a, N), m.AddConstantModN(rng.randrange(N), N), m.AddConstantModN(a % N2, N2), m.AddConstant(a)]
        return fam, rng.sample(g, 4), [w]
    if fam == 'mulc':
        N = rng.randint(2, 1 << max(w, 2))
        c = [a for a in range(1, N) if math.gcd(a, N) == 1] or [1]
        a = rng.choice(c)
        g = [m.MultiplyByConstantModN(a, N), m.MultiplyByConstantModN(rng.choice(c), N), m.MultiplyByConstantModN(a, N), m.AddConstantModN(a % N, N)]
        return fam, g, [max(w, 2)]
    if fam == 'qmath':
        k = rng.choice(['two', 'three', 'cmp', 'mul', 'div'])
        w = min(w, 2)
        add = [m.AddQuantum, o.get_inverse(m.AddQuantum), copy.deepcopy(m.AddQuantum)]
        if k == 'two':
            return fam, add + [m.SubtractQuantum, copy.deepcopy(m.SubtractQuantum), o.get_inverse(m.SubtractQuantum)], [w + 1, w + 1]
        if k == 'three':
            return fam, add, [w, w, 1]
        if k == 'cmp':
            return fam, [m.ComparatorQuantum, o.get_inverse(m.ComparatorQuantum), m.AddQuantum], [w, w, 1]
        if k == 'mul':
            return fam, [m.MultiplyQuantum, o.get_inverse(m.MultiplyQuantum), copy.deepcopy(m.MultiplyQuantum)], [w, w, 2 * w + 1]
        return fam, [m.DivideQuantum, o.get_inverse(m.DivideQuantum), copy.deepcopy(m.DivideQuantum)], [w, w, w]
    if fam == 'user':
        def f1(x):
            return (x + 1,)

        def f2(x):
            return (x ^ 1,)
        ks = [f1, f2, lambda x: (x + 1,), lambda x: (x - 1,)]
        return fam, [o.BasicMathGate(rng.choice(ks)) for _ in range(3)], [w]
    if fam == 'dagger':
        b = [o.QubitOperator(((0, 'X'),), 1), o.MatrixGate(ref.random_unitary(np.random.default_rng(rng.randrange(99)), 2)), o.S, o.SqrtX, o.SqrtX,
             o.Entangle, o.QFT, o.T, o.Rx(.3)]
        g = rng.sample(b, 2)
        return fam, [o.DaggeredGate(x) for x in g] + [o.DaggeredGate(g[0]), g[0]], [1]
    if fam == 'prep':
        v = simdrv.random_state(rng, 2)[:4] if False else ref.random_unitary(np.random.default_rng(rng.randrange(1 << 30)), 4)[0]
        v2 = np.array(v)
        v2[0] *= -1
        return fam, [o.StatePreparation(list(v)), o.StatePreparation(tuple(v)), o.StatePreparation(list(v2))], [2]
    b = [prog.spec_gate((x,)) for x in ('X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'SqrtX')] + [o.Rx(math.pi), o.Rz(math.pi / 2), o.R(math.pi / 2), o.R(math.pi), o.Ph(0),
                                                                                         o.Rx(0), o.Ry(4 * math.pi), o.Rz(2 * math.pi), o.Ph(2 * math.pi),
                                                                                         o.FlipBits(1), o.QubitOperator('X0'), o.QubitOperator('Z0'),
                                                                                         o.QubitOperator(()), o.MatrixGate(ref.X), o.MatrixGate(ref.I2),
                                                                                         o.TimeEvolution(0, o.QubitOperator('X0')), m.AddConstant(1), m.AddConstant(0)]
    return fam, rng.sample(b, 5), [1]


def trysem(ctx, g, sizes):
    try:
        return sem(g, sizes)
    except UnknownGate:
        ctx.count('opaque_gates')
        return None


def laws(ctx, rng, idx):
    from projectq.ops import DaggeredGate, MatrixGate, NotInvertible, NotMergeable, get_inverse, is_identity
    fam, gates, sizes = build(rng)
    names = [str(g) if fam != 'user' else 'user' for g in gates]
    ctx.describe(dict(family=fam, gates=names, sizes=sizes))
    sems = [trysem(ctx, g, sizes) for g in gates]
    before = [copy.deepcopy(s) for s in sems]
    feats = set()
    tol = lambda a, b: 1e-7 if (isinstance(a, MatrixGate) or isinstance(b, MatrixGate) or fam == 'qop') else 1e-8
    # inverse
    for g, s, nm in zip(gates, sems, names):
        try:
            native = g.get_inverse()
        except NotInvertible:
            native = None
        inv = get_inverse(g)
        ctx.count('inverses')
        if s is not None:
            if s.p is None and np.max(np.abs(s.m @ s.m.conj().T - np.eye(len(s.m)))) > 1e-9:
                # not unitary: an inverse must be the operator inverse if offered at all
                if native is not None:
                    si = trysem(ctx, native, sizes)
                    if si is not None:
                        d = si.after(s).dist(Sem(np.eye(len(s.m), dtype=complex)))
                        ctx.check(d < 1e-6, 'inverse', 'get_inverse(%s) does not undo it (%.3g)' % (nm, d))
            else:
                si = trysem(ctx, inv, sizes)
                if si is not None:
                    if s.p is not None:
                        d = si.after(s).dist(Sem(pmap={k: k for k in s.p}))
                        n = len(si.after(s).p)
                        ctx.check(n == len(s.p) or type(g).__name__.startswith('_Inverse'), 'inverse', 'get_inverse(%s) is not defined on all results' % nm)
                    else:
                        d = si.dist(s.dag())
                    ctx.check(d < 1e-9, 'inverse', 'get_inverse(%s) = %s differs from the inverse operator by %.3g' % (nm, type(inv).__name__, d))
                    feats.add('inv')
                    back = get_inverse(inv)
                    sb = trysem(ctx, back, sizes)
                    if sb is not None:
                        ctx.check(sb.dist(s) < 1e-9, 'double-inverse', 'the inverse of the inverse of %s acts differently (%.3g)' % (nm, sb.dist(s)))
        if isinstance(inv, DaggeredGate):
            ctx.check(get_inverse(inv) == g, 'double-inverse', 'get_inverse of the daggered %s is not the gate' % nm)
        if native is not None and not isinstance(g, (MatrixGate,)):
            str(inv)
        # identity
        if is_identity(g):
            ctx.count('identities')
            feats.add('id')
            if s is not None:
                one = Sem(np.eye(1 << sum(sizes), dtype=complex)) if s.p is None else Sem(pmap={k: k for k in s.p})
                d = s.dist(one)
                ctx.check(d < 1e-9, 'is-identity', '%s is reported as identity but differs from it by %.3g' % (nm, d))
        # copies
        c = copy.deepcopy(g)
        if fam != 'user' and type(g).__name__ != 'TimeEvolution':  # time evolutions are documented as not comparable
            ctx.check(c == g and not (c != g), 'copy', 'a copy of %s is not equal to it' % nm)
        sc = trysem(ctx, c, sizes)
        if sc is not None:
            ctx.check(sc.dist(s) < 1e-12, 'copy', 'a copy of %s acts differently' % nm)
        try:
            h = hash(g)
        except TypeError:
            h = None
        if h is not None and not isinstance(g, MatrixGate) and fam != 'user' and c == g:
            ctx.check(hash(c) == h, 'hash', 'a copy of %s hashes differently' % nm)
    # pairs
    for i, j in itertools.product(range(len(gates)), repeat=2):
        a, b = gates[i], gates[j]
        sa, sb = sems[i], sems[j]
        eq = a == b
        ctx.check(bool(eq) != bool(a != b), 'equality', '%s == and != %s agree' % (names[i], names[j]))
        if eq:
            ctx.count('equal_pairs')
            feats.add('eq' if i != j else 'refl')
            if sa is not None and sb is not None:
                d = sa.dist(sb)
                ctx.check(d < tol(a, b), 'equality', '%s == %s but they differ by %.3g' % (names[i], names[j], d))
            if fam == 'prep':
                d = float(np.max(np.abs(np.array(a.final_state) - np.array(b.final_state))))
                ctx.check(d < 1e-8, 'equality', 'equal state preparations of different states')
            if not isinstance(a, MatrixGate) and not isinstance(b, MatrixGate):
                try:
                    ha, hb = hash(a), hash(b)
                except TypeError:
                    continue
                ctx.check(ha == hb, 'hash', '%s == %s but their hashes differ' % (names[i], names[j]))
        try:
            mg = a.get_merged(b)
        except NotMergeable:
            ctx.count('not_mergeable')
            continue
        ctx.count('merges')
        feats.add('merge')
        if sa is not None and sb is not None:
            sm = trysem(ctx, mg, sizes)
            if sm is not None:
                d = sm.dist(sb.after(sa))
                ctx.check(d < 1e-9, 'merge', 'merging %s with %s gives %s, off by %.3g' % (names[i], names[j], mg, d))
    if fam == 'ucr':
        # gates on another number of qubits: neither equal nor mergeable
        for x in gates:
            for v in (list(x.angles) * 2, list(x.angles)[:len(x.angles) // 2]):
                y = type(x)(v)
                for p, q in ((x, y), (y, x)):
                    ctx.check(not p == q and p != q, 'equality', '%s equals %s although they act on different numbers of qubits' % (p, q))
                    try:
                        mg = p.get_merged(q)
                    except NotMergeable:
                        ctx.count('not_mergeable')
                    else:
                        raise Violation('merge', '%s was merged with %s, which acts on another number of qubits, into %s' % (p, q, mg))
    # operands must not have been modified
    for g, s, nm in zip(gates, before, names):
        if s is not None:
            d = sem(g, sizes).dist(s)
            ctx.check(d < 1e-12, 'operand-modified', '%s acts differently after being inverted/merged/compared (%.3g)' % (nm, d))
    ctx.sig(fam, tuple(sizes), tuple(sorted(feats)), tuple(sorted(type(g).__name__ for g in gates)))
    if idx < 2:
        ctx.sample(dict(family=fam, gates=names[:3], laws=sorted(feats)))


def period(ctx, rng, idx):
    """Angles are periodic exactly as far as the operator is."""
    import projectq.ops as o
    name = rng.choice(['Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz', 'R', 'Ph'])
    per = 2 * math.pi if name in ('R', 'Ph') else 4 * math.pi
    a = rng.choice([0.0, math.pi, math.pi / 2, 2 * math.pi, round(rng.uniform(0, per), 6)])
    k = rng.choice([-3, -1, 1, 2, 5])
    cls = getattr(o, name)
    g, h, half = cls(a), cls(a + k * per), cls(a + per / 2)
    ctx.describe((name, a, k))
    ctx.check(g == h, 'period', '%s(%r) and the same angle plus %d periods are different gates' % (name, a, k))
    ctx.check(hash(g) == hash(h), 'period', 'hash of %s(%r) changes with the period' % (name, a))
    ctx.check(not g == half, 'period', '%s(%r) equals %s(%r)' % (name, a, name, a + per / 2))
    s = [2, 2] if name in ('Rxx', 'Ryy', 'Rzz') else [1]
    k = 2 if len(s) == 2 else 1
    want = sem(prog_gate(name, a), [k])
    ctx.check(Sem(np.asarray(g.matrix, complex)).dist(want) < 1e-9, 'matrix', 'matrix of %s(%r)' % (name, a))
    ctx.check(Sem(np.asarray(half.matrix, complex)).dist(sem(prog_gate(name, a + per / 2), [k])) < 1e-9, 'matrix', 'matrix of %s(%r)' % (name, a + per / 2))
    m = g.get_merged(cls(-a))
    d = float(np.max(np.abs(np.asarray(m.matrix) - np.eye(len(m.matrix)))))
    ctx.check(d < 1e-9, 'period', '%s(%r) merged with its opposite is not the identity (%.3g)' % (name, a, d))
    ctx.count('periods')
    ctx.sig('period', name, a in (0.0, math.pi), k)


class _G:
    pass


def prog_gate(name, a):
    """A stand-in carrying name and raw angle, for the reference matrices."""
    g = type(name, (), {})()
    g.angle = a
    return g


def _unwrapped(name):
    return name


def matrices(ctx, rng, idx):
    """Every gate with a matrix has the documented one; meta gates (C, Tensor/All, Dagger) act as their definition."""
    import projectq.ops as o
    from projectq import MainEngine
    from projectq.ops import C, All, Tensor, get_inverse, NotInvertible
    names = [(n,) for n in ('X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX', 'SqrtXdag', 'Swap', 'SqrtSwap', 'SqrtSwapdag')] + \
        [(n, prog.angle(rng)) for n in ('Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz', 'R', 'Ph')]
    spec = names[idx % len(names)]
    g = prog.spec_gate(spec)
    k = 2 if spec[0] in ('Swap', 'SqrtSwap', 'SqrtSwapdag', 'Rxx', 'Ryy', 'Rzz') else 1
    want = prog.spec_matrix(spec, [k])
    ctx.describe(spec)
    if hasattr(g, 'matrix'):
        d = float(np.max(np.abs(np.asarray(g.matrix) - want)))
        ctx.check(d < 1e-10, 'matrix', 'the matrix of %s is off by %.3g' % (g, d))
        ctx.count('matrices')
    # meta gates executed on a register in a random state
    be = RefBackend(seed=1)
    eng = MainEngine(backend=be, engine_list=[], verbose=True)
    nc = rng.randint(1, 2)
    q = eng.allocate_qureg(nc + 2)
    st = ref.State()
    for x in q:
        st.alloc(x.id)
    v = ref.random_unitary(np.random.default_rng(rng.randrange(1 << 30)), 1 << len(q))[0]
    be.state.psi = v.copy()
    st.psi = v.copy()
    form = rng.choice(['C', 'CC', 'invC', 'Cinv', 'Tensor', 'All', 'invTensor', 'matrixgate'])
    t = q[nc:nc + k]
    tg = t if k == 1 else tuple(t)
    ids = [x.id for x in t]
    cids = [x.id for x in q[:nc]]
    dag = want.conj().T
    if form == 'C':
        C(g, nc) | ((q[:nc],) + tuple(t) if rng.random() < .5 else tuple(q[:nc]) + tuple(t))
        st.apply(want, ids, cids)
    elif form == 'CC':
        gg = g
        for _ in range(nc):
            gg = (C if rng.random() < .6 else o.ControlledGate)(gg)
        gg | (tuple(q[:nc]) + tuple(t))
        st.apply(want, ids, cids)
        others = [C(g, nc + 1), C(C(g), nc)] + ([g] if nc else [])
        ctx.check(not any(x == gg or not x != gg for x in others), 'controlled-equality', '%s equals a gate with another number of controls' % gg)
        gi = get_inverse(g)
        if not gi == g:
            ctx.check(C(gi, nc) != gg, 'controlled-equality', 'controlled %s equals the controlled inverse' % g)
        ctx.check(gg == C(g, nc), 'controlled-equality', 'C(C(%s)) != C(%s, 2)' % (g, g))
    elif form in ('invC', 'Cinv'):
        (get_inverse(C(g, nc)) if form == 'invC' else C(get_inverse(g), nc)) | (tuple(q[:nc]) + tuple(t))
        st.apply(dag, ids, cids)
    elif form in ('Tensor', 'All', 'invTensor'):
        if k != 1:
            return
        w = {'Tensor': Tensor, 'All': All, 'invTensor': lambda x: get_inverse(Tensor(x))}[form](g)
        (w | q) if rng.random() < .5 else (w | (q,))
        for x in q:
            st.apply(dag if form == 'invTensor' else want, [x.id])
    else:
        get_inverse(o.MatrixGate(want)) | tg
        st.apply(dag, ids)
    eng.flush()
    d = float(np.max(np.abs(be.state.reorder(st.names) - st.psi)))
    ctx.check(d < 1e-9, 'meta-gate', '%s of %s acts differently from its definition (%.3g)' % (form, g, d))
    ctx.count('meta_gates')
    ctx.sig('meta', form, spec[0], nc)
    for x in q:
        x.id = -1


def aliasing(ctx, rng, idx):
    """A gate keeps what it was given: later changes of the arguments do not change it, and it does not change them."""
    import projectq.ops as o
    fam = rng.choice(['timeev', 'timeev', 'prep', 'ucr', 'flip', 'matrix', 'qop', 'evinv'])
    ctx.describe(fam)
    k = rng.randint(1, 2)
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    if fam in ('timeev', 'evinv'):
        t = simdrv.random_terms(rng, k, identity=False)
        arg = o.QubitOperator()
        for a in t:
            arg += o.QubitOperator(a, rng.choice([complex, float])(t[a]))
        g = o.TimeEvolution(round(rng.uniform(.1, 2), 4), arg)
        if fam == 'evinv':
            g = o.get_inverse(g)
        sizes = [k]

        def change():
            arg.terms[rng.choice(list(arg.terms))] = 7.5
            arg.terms[((0, 'X'),)] = .25
            if rng.random() < .5:
                arg.terms.clear()
    elif fam == 'prep':
        arg = list(ref.random_unitary(nrng, 1 << k)[0])
        g, sizes = o.StatePreparation(arg), [k]

        def change():
            arg[0], arg[1] = arg[1] * 1j, -arg[0]
    elif fam == 'ucr':
        arg = [round(rng.uniform(-5, 5), 6) for _ in range(1 << k)]
        g, sizes = rng.choice([o.UniformlyControlledRy, o.UniformlyControlledRz])(arg), [k, 1]

        def change():
            arg[rng.randrange(len(arg))] += 1.
    elif fam == 'flip':
        arg = [rng.randint(0, 1) for _ in range(3)]
        g, sizes = o.FlipBits(arg), [3]

        def change():
            arg[rng.randrange(3)] ^= 1
    elif fam == 'matrix':
        arg = ref.random_unitary(nrng, 1 << k)
        if rng.random() < .5:
            arg = np.asmatrix(arg)
        g, sizes = o.MatrixGate(arg), [k]

        def change():
            arg[0, 0] += 1.
    else:
        arg = o.QubitOperator(tuple((i, rng.choice('XYZ')) for i in range(k)), rng.choice([1, 1j, -1]))
        g, sizes = rng.choice([copy.deepcopy, lambda x: x.get_inverse(), lambda x: x.get_merged(x), lambda x: x * 1])(arg), [k]

        def change():
            arg.terms[rng.choice(list(arg.terms))] = -.5j
            arg.__imul__(2)
            arg.terms.clear()
    shown = lambda x: sorted((t, c) for t, c in x.terms.items()) if hasattr(x, 'terms') else repr(x)

    def show(x):
        if fam == 'prep':
            return repr(list(x.final_state))
        if fam == 'ucr':
            return repr(x.angles)
        return ''

    def meaning():
        s = trysem(ctx, g, sizes)
        return copy.deepcopy(s), show(g)
    before_arg = shown(arg)
    s0, t0 = meaning()
    o.get_inverse(g)
    copy.deepcopy(g)
    str(g)
    g == g
    try:
        g.get_merged(copy.deepcopy(g))
    except o.NotMergeable:
        pass
    ctx.check(shown(arg) == before_arg, 'argument-changed', '%s changed its argument to %s' % (type(g).__name__, shown(arg)))
    change()
    s1, t1 = meaning()
    ctx.check(t0 == t1, 'aliased', 'changing the argument of %s changed the gate from %s to %s' % (type(g).__name__, t0, t1))
    if s0 is not None:
        d = s0.dist(s1) if s1 is not None else float('inf')
        ctx.check(d < 1e-12, 'aliased', 'changing the argument of %s changed what the gate does by %.3g' % (type(g).__name__, d))
    if fam == 'matrix':
        # the matrix of a gate can be replaced: everything asked afterwards follows
        hash(g)
        g.is_identity()
        new = ref.random_unitary(nrng, 1 << k)
        if rng.random() < .2:
            new = np.identity(1 << k)
        g.matrix = np.asmatrix(new)
        inv, twin = o.get_inverse(g), o.MatrixGate(np.asmatrix(new))
        ctx.check(np.abs(np.asarray(inv.matrix) @ new - np.identity(1 << k)).max() < 1e-9, 'stale', 'after a new matrix was assigned, the inverse still belongs to the old one')
        ctx.check(g == twin and not g != twin, 'stale', 'after a new matrix was assigned, the gate differs from a gate made from it')
        ctx.check(str(g) == str(twin) and hash(g) == hash(twin), 'stale', 'after a new matrix was assigned, the gate prints or hashes as %s' % g)
        ctx.check(bool(g.is_identity()) == bool(twin.is_identity()), 'stale', 'after a new matrix was assigned, is_identity answers %s' % g.is_identity())
        ctx.count('matrix_replaced')
    ctx.count('arguments_changed')
    ctx.sig('alias', fam, k)


def alg_a(eng, q):
    pass


def alg_b(eng, q):
    pass


def algorithms(ctx, rng, idx):
    """Gates defined by other gates, functions or states are equal exactly when what defines them is equal."""
    import projectq.ops as o
    import projectq.libs.math as m

    def one():
        k = rng.choice(['qpe', 'qpe', 'qaa', 'qaa', 'prep', 'ctrl', 'dag', 'tensor', 'flip', 'time'])
        u = [lambda: (o.Rz(.3), 'rz.3'), lambda: (o.Rz(.30001), 'rz.30001'), lambda: (o.X, 'x'), lambda: (o.S, 's'), lambda: (o.get_inverse(o.S), 's+'),
             lambda: (o.QubitOperator('X0'), 'qx'), lambda: (m.AddConstant(2), 'a2'), lambda: (m.AddConstant(3), 'a3')]
        g, n = rng.choice(u)()
        if k == 'qpe':
            return o.QPE(g), (k, n)
        if k == 'qaa':
            a, b = rng.choice([alg_a, alg_b]), rng.choice([alg_a, alg_b])
            return o.QAA(a, b), (k, a.__name__, b.__name__)
        if k == 'prep':
            v = rng.choice([(1, 0), (0, 1), (.6, .8), (.6, -.8), (.6, .8j), (1, 0, 0, 0)])
            return o.StatePreparation(rng.choice([list, tuple])(v)), (k, v)
        if k == 'ctrl':
            c = rng.randint(1, 3)
            return o.C(g, c), (k, n, c)
        if k == 'dag':
            return o.DaggeredGate(g), (k, n)
        if k == 'tensor':
            return o.Tensor(g), (k, n)
        if k == 'flip':
            b = [rng.randint(0, 1) for _ in range(2)]
            return o.FlipBits(b), (k, tuple(b))
        t, h = rng.choice([.5, -.5]), rng.choice(['X0', 'Z0'])
        return o.get_inverse(o.QPE(o.TimeEvolution(t, o.QubitOperator(h)))), None
    gates = [one() for _ in range(6)]
    ctx.describe([str(k) for _, k in gates])
    for (a, ka), (b, kb) in itertools.product(gates, repeat=2):
        if ka is None or kb is None or ka[0] != kb[0]:
            if ka and kb:
                ctx.check(not a == b or {ka[0], kb[0]} <= {'flip'}, 'equality', '%s equals %s' % (a, b))
            continue
        if ka[0] == 'tensor' and type(a).__eq__ is o.BasicGate.__eq__:
            continue
        ctx.check((a == b) == (ka == kb) and (a != b) == (ka != kb), 'algorithm-equality', '%s and %s (%s, %s): equal is %s' % (a, b, ka, kb, a == b))
        if ka == kb and ka[0] not in ('ctrl', 'tensor') and not ka[1] == 'qx':
            ctx.check(hash(a) == hash(b), 'hash', 'equal gates %s with different hashes' % a)
        if ka[0] in ('qpe', 'qaa', 'prep', 'dag', 'ctrl'):
            ia, ib = o.get_inverse(a), o.get_inverse(b)
            ctx.check((ia == ib) == (ka == kb), 'algorithm-equality', 'the inverses of %s and %s: equal is %s' % (a, b, ia == ib))
            if ka[0] in ('qpe', 'qaa', 'prep'):
                ctx.check(not ia == b, 'algorithm-equality', 'the inverse of %s equals %s' % (a, b))
        ctx.count('algorithms_compared')
        ctx.sig('algorithm', ka[0], ka == kb)


JOBS = {
    'algorithms': Job(algorithms, 300, shards=1, time_quick=20),
    'aliasing': Job(aliasing, 400, shards=1, time_quick=20),
    'laws': Job(laws, 4000, shards=5, time_quick=40),
    'period': Job(period, 600, shards=1, time_quick=20),
    'matrices': Job(matrices, 600, shards=1, time_quick=30),
}
