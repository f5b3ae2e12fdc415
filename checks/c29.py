"""C29: invalid programs are rejected with an error, never silently miscompiled."""
import math

import numpy as np

from checks import c15
from vlib import prog, ref, simdrv, util
from vlib.harness import Job, Skip, Violation
from vlib.pq import RefBackend, Tap, cmd_kind, cmd_repr

RULE = ('random valid programs with malformed statements at random points, also inside of Control, Compute, Dagger and Loop blocks, behind many engine lists; every malformed '
        'statement has to raise, the streams, the engine chain and the state have to be what they were, and the rest of the program has to mean what it means without the '
        'malformed statements. The same with commands only a simulator can reject (released and unknown qubits, wrong numbers of qubits) and with every '
        'gate of the catalogue applied to too many qubits or registers behind compilers')
ASSUMPTIONS = ['errors are caught by the program right at the malformed statement (or at the next flush, for what only the last engine can reject)',
               'engine lists without mappers for statements only the last engine can reject']
MIN = dict(rejected=2500, rejected_in_blocks=300, rejected_by_simulator=800, rejected_by_compiler=400, states_compared=400, errors_passed_on=200)


def chain(eng):
    out = []
    e = eng
    while True:
        out.append(e)
        if getattr(e, 'is_last_engine', False) or getattr(e, 'next_engine', None) is None:
            return out
        e = e.next_engine


class Foreign:
    """Another engine with qubits, whose stream has to stay empty."""

    def __init__(self):
        from projectq import MainEngine
        self.tap = Tap()
        self.eng = MainEngine(self.tap, [], verbose=True)
        self.q = [x for _ in range(2) for x in self.eng.allocate_qubit()]
        self.n = len(self.tap.cmds)

    def close(self):
        for x in self.q:
            x.id = -1


# ------------------------------------------------------------------------------------------- misuse of the language
def within(cm, fn):
    with cm():
        fn()


def language(rng, eng, q, unmeasured, foreign):
    """One malformed statement, to be rejected when it is given: (kind, function)."""
    import projectq.ops as o
    from projectq.libs.math import AddConstant, AddQuantum
    from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
    a = rng.choice(q)
    rest = [x for x in q if x is not a]
    one = rng.choice([o.X, o.H, o.T, o.Rx(.3), o.Ph(.4), o.MatrixGate([[0, 1], [1, 0]]), o.SqrtX])
    L = [
        ('target twice', lambda: rng.choice([o.Swap, o.SqrtSwap, o.Rxx(.2), o.Rzz(1.), AddQuantum, o.CNOT, o.C(o.H), o.CRz(.3), o.MatrixGate(np.eye(4))]) | (a, a)),
        ('register with a qubit twice', lambda: rng.choice([o.QFT, o.Entangle, AddConstant(3), o.QubitOperator('X0 Y1'), o.TimeEvolution(1., o.QubitOperator('Z0 Z1')), o.get_inverse(o.QFT)]) | [a, a]),
        ('controlled by itself', lambda: within(lambda: Control(eng, a), lambda: one | a)),
        ('nan angle', lambda: rng.choice([o.Rx, o.Ry, o.Rz, o.R, o.Ph, o.Rxx, o.Ryy, o.Rzz, o.CRz])(rng.choice([float('nan'), float('inf'), -float('inf'), 'x', None, 1j, [1]]))),
        ('nan angles', lambda: rng.choice([o.UniformlyControlledRy, o.UniformlyControlledRz])([.1, rng.choice([float('nan'), float('inf'), 'x', None])])),
        ('evolution time', lambda: o.TimeEvolution(rng.choice(['1', None, 1j, float('nan'), float('inf')]), o.QubitOperator('X0')) | a),
        ('hamiltonian', lambda: o.TimeEvolution(1., rng.choice([1j * o.QubitOperator('X0'), 'X0', None, o.X])) | a),
        ('hamiltonian out of range', lambda: o.TimeEvolution(1., o.QubitOperator('X%d' % (len(q) + rng.randrange(5)))) | q),
        ('operator out of range', lambda: o.QubitOperator('X%d Y0' % (len(q) + rng.randrange(5))) | q),
        ('operator norm', lambda: (rng.choice([2, .5, 0, 1 + 1j]) * o.QubitOperator('X0')) | a),
        ('operator sum', lambda: (o.QubitOperator('X0') + o.QubitOperator('Y0')) | a),
        ('operator text', lambda: o.QubitOperator(rng.choice(['X', 'W0', 'X-1', 'x0', 'X0Y1', ((0, 'A'),), ((-1, 'X'),), [1]]))),
        ('no qubits', lambda: one | rng.choice([(), [], ([],)])),
        ('no qubits at all', lambda: one | rng.choice([None, 3, 'q', (None,), (a, None)])),
        ('control state length', lambda: within(lambda: Control(eng, [a], ctrl_state=rng.choice(['', '11', '101'])), lambda: one | rest[0])),
        ('control state text', lambda: within(lambda: Control(eng, [a], ctrl_state=rng.choice(['x', '2', ' ', '-'])), lambda: one | rest[0])),
        ('control state number', lambda: within(lambda: Control(eng, [a], ctrl_state=rng.choice([2, 5, -1, -2, 1 << 70])), lambda: one | rest[0])),
        ('control state type', lambda: within(lambda: Control(eng, [a], ctrl_state=rng.choice([None, 1., ['1'], b'1', ('1',)])), lambda: one | rest[0])),
        ('control tuple', lambda: within(lambda: Control(eng, (a,)), lambda: one | rest[0])),
        ('control without qubits', lambda: within(lambda: Control(eng, rng.choice([None, 1])), lambda: one | rest[0])),
        ('control of another engine', lambda: within(lambda: Control(eng, foreign.q[0]), lambda: one | a)),
        ('control on another engine', lambda: within(lambda: Control(foreign.eng, a), lambda: one | a)),
        ('control of two engines', lambda: within(lambda: Control(eng, [a, foreign.q[0]]), lambda: one | rest[0])),
        ('targets of two engines', lambda: rng.choice([o.Swap, o.CNOT, o.C(o.H), o.Rxx(.3), AddQuantum]) | rng.choice([(a, foreign.q[0]), (foreign.q[0], a)])),
        ('register of two engines', lambda: rng.choice([o.QFT, AddConstant(1)]) | [a, foreign.q[1]]),
        ('number of controls', lambda: o.C(one, rng.choice([2, 3])) | rng.choice([(a,), ([a],), ([a, rest[0]],) if rest else (a,), (a, rest[0]) if rest else (a,)])),
        ('too many controls', lambda: o.C(one, 1) | ([a, rest[0]], rest[1])),
        ('no target', lambda: o.CNOT | rng.choice([a, (a,)])),
        ('swap needs two', lambda: rng.choice([o.Swap, o.SqrtSwap]) | rng.choice([a, [a], (a,)])),
        ('measure many', lambda: o.Measure | rng.choice([(a, rest[0]), [a, rest[0]], ([a], rest)])),
        ('all of a tuple', lambda: rng.choice([o.All, o.Tensor])(one) | (a, rest[0])),
        ('all of a qubit', lambda: o.All(one) | a),
        ('flip registers', lambda: o.FlipBits([1]) | (a, rest[0])),
        ('loop count', lambda: within(lambda: Loop(eng, rng.choice([-1, -5, 1.5, None, '2', 2.])), lambda: one | a)),
        ('read unmeasured', lambda: rng.choice([int, bool])(rng.choice(unmeasured))),
        ('read a register', lambda: rng.choice([int, bool])(eng_reg(unmeasured[:1] * 2))),
        ('state preparation', lambda: o.StatePreparation(rng.choice([None, 3]))),
    ]
    if rest:
        t = rest[0]
        L += [
            ('conflicting control states', lambda: within(lambda: Control(eng, a), lambda: within(lambda: Control(eng, a, ctrl_state=0), lambda: one | t))),
            ('control state mixed text', lambda: within(lambda: Control(eng, [a, t], ctrl_state=rng.choice(['1x', 'x0', '0 ', '12', '-1', '1\n'])), lambda: one | q[-1])),
            ('control overlaps target', lambda: within(lambda: Control(eng, [t, a]), lambda: rng.choice([o.Swap, o.Rxx(.3)]) | (a, t))),
            ('control in register', lambda: within(lambda: Control(eng, a), lambda: rng.choice([o.QFT, AddConstant(1), o.Entangle]) | q)),
            ('controlled by itself twice', lambda: within(lambda: Control(eng, t), lambda: within(lambda: Control(eng, a, ctrl_state=rng.randint(0, 1)), lambda: one | a))),
            ('C overlaps', lambda: o.C(one, 2) | ([a, t], a)),
            ('twice in two registers', lambda: rng.choice([AddQuantum, o.UniformlyControlledRy([.1, .2])]) | ([a], [a])),
            ('overlapping registers', lambda: AddQuantum | ([a, t], [t, a])),
        ]
    while True:
        k, f = rng.choice(L)
        if k in ('control state length', 'control state text', 'control state number', 'control state type', 'control tuple', 'control without qubits', 'measure many',
                 'all of a tuple', 'flip registers', 'control of two engines') and not rest:
            continue
        if k == 'too many controls' and len(rest) < 2:
            continue
        if k in ('read unmeasured', 'read a register') and not unmeasured:
            continue
        return k, f


def eng_reg(qs):
    from projectq.types import Qureg
    return Qureg(qs)


class Careless(prog.Runner):
    """Runs a program with malformed statements ('misuse', n) in it."""

    def __init__(self, eng, ctx, rng, front, back, foreign):
        super().__init__(eng)
        self.ctx, self.rng, self.front, self.back, self.foreign = ctx, rng, front, back, foreign
        self.stack = []
        self.quiet = True

    def run(self, body):
        for st in body:
            if st[0] == 'misuse':
                self.misuse()
            elif st[0] in ('control', 'compute', 'loop', 'dagger'):
                self.stack.append(st)
                super().run([st])
                self.stack.pop()
            else:
                super().run([st])

    def misuse(self):
        from projectq.ops import X
        eng, rng = self.eng, self.rng
        names = list(self.q)
        if not names:
            return
        if self.stack and self.stack[-1][0] == 'control' and rng.random() < .3 and all(n in self.q for n in self.stack[-1][1]):
            c = self.q[rng.choice(self.stack[-1][1])]
            kind, f = 'controlled by its block', lambda: X | c
        else:
            un = [self.q[n] for n in names if n not in getattr(self, 'last_measured', ())]
            kind, f = language(rng, eng, [self.q[n] for n in names], un, self.foreign)
        before = (len(self.front.cmds), self.back.n, [id(e) for e in chain(eng)], len(self.foreign.tap.cmds), [id(e) for e in chain(self.foreign.eng)])
        try:
            r = f()
        except Violation:
            raise
        except Exception as e:
            self.ctx.count('rejected')
            self.ctx.count('rejected_in_blocks', bool(self.stack))
            self.ctx.sig('language', kind, type(e).__name__, self.stack[-1][0] if self.stack else '')
        else:
            raise Violation('accepted:' + kind, 'a malformed statement was accepted: %s (returned %r; commands: %s)' % (
                kind, r, [cmd_repr(c) for c in self.front.cmds[before[0]:]][:5]), blocks=[s[0] for s in self.stack])
        after = (len(self.front.cmds), self.back.n, [id(e) for e in chain(eng)], len(self.foreign.tap.cmds), [id(e) for e in chain(self.foreign.eng)])
        for b, x, what in zip(before, after, ('stream of the program', 'stream at the backend', 'engine chain', 'stream of another engine', 'engine chain of another engine')):
            if b != x:
                raise Violation('effect:' + kind, 'the rejected statement (%s) changed the %s' % (kind, what), commands=[cmd_repr(c) for c in self.front.cmds[before[0]:]][:5])


def inject(rng, body, p):
    out = []
    for st in body:
        if rng.random() < p and st[0] != 'alloc':
            out.append(('misuse',))
        if st[0] == 'control':
            st = (st[0], st[1], st[2], inject(rng, st[3], p))
        elif st[0] == 'compute':
            st = (st[0], inject(rng, st[1], p), inject(rng, st[2], p)) + tuple(st[3:])
        elif st[0] == 'loop':
            st = (st[0], st[1], inject(rng, st[2], p))
        elif st[0] == 'dagger':
            st = (st[0], inject(rng, st[1], p))
        out.append(st)
    if rng.random() < p:
        out.append(('misuse',))
    return out


class Count(Tap):
    n = 0

    def receive(self, command_list):
        self.n += len(command_list)
        self.send(command_list)


def case_language(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.cengines import InstructionFilter
    kind = rng.choice(['none', 'optimizer', 'optimizers', 'observers', 'compile', 'compile2', 'restricted', 'default'])
    comp = kind in ('compile', 'compile2', 'restricted', 'default')
    g = prog.Gen(rng, max_qubits=5, size=rng.choice([8, 15, 25]) if not comp else 8, highlevel=comp, explicit=False)
    body = g.program()
    if comp:
        body = c15.strip(body, ('U', 'Rxx', 'Ryy', 'Rzz'))
    full = inject(rng, body, .25)
    seed = rng.randrange(1 << 30)
    be = RefBackend(seed=seed, available=c15.low if comp and kind != 'restricted' else None)
    front, back, foreign = Tap(), Count(keep=False), Foreign()
    # the replacers have to decompose everything which has no matrix
    f = [InstructionFilter(lambda self, cmd: cmd_kind(cmd) != 'gate' or c15.low(cmd) and hasattr(cmd.gate, 'matrix'))] if comp and kind != 'restricted' else []
    eng = MainEngine(backend=be, engine_list=[front] + c15.lists(rng, kind) + f + [back], verbose=True)
    ctx.describe(dict(engines=kind, program=repr(full)[:3000]))
    r = Careless(eng, ctx, rng, front, back, foreign)
    r.run(full)
    eng.flush()
    m = prog.Machine(seed, lid=lambda n: r.ids[n])
    m.forced = {(l, o): v for l, o, p, v in be.outcomes}
    m.run(body)
    util.compare(ctx, eng, r, m, be)
    ctx.sig('front', kind, sorted(prog.feature_set(body)))
    if idx < 2:
        ctx.sample('%s: %s' % (kind, repr(full)[:400]))
    foreign.close()
    for x in r.q.values():
        x.id = -1


# --------------------------------------------------------------------------------------- what only a simulator can reject
def shapes(rng, q):
    """A gate and a list of arguments with a wrong number of qubits."""
    import projectq.ops as o
    U = lambda k: o.MatrixGate(simdrv_unitary(rng, k))
    k1 = rng.choice([o.X, o.Y, o.Z, o.H, o.S, o.T, o.SqrtX, o.Rx(.3), o.Ry(1.), o.Rz(.2), o.R(.7), o.Ph(.1), U(1)])
    k2 = rng.choice([o.Swap, o.SqrtSwap, o.Rxx(.3), o.Ryy(.4), o.Rzz(.5), U(2)])
    C = []
    if len(q) >= 2:
        C += [('one-qubit gate on two', k1, rng.choice([(q[0], q[1]), (q[:2],)])), ('controlled one-qubit gate on two', o.C(k1), (q[0], q[1:3])) if len(q) > 2 else ('one-qubit gate on two', k1, (q[:2],))]
    if len(q) >= 3:
        C += [('two-qubit gate on three', k2, (q[0], q[1], q[2])), ('two-qubit gate on three', rng.choice([o.Rxx(.3), U(2)]), (q[:3],)), ('one-qubit gate on three', k1, (q[:3],)),
              ('three-qubit matrix on two', U(3), (q[:2],))]
    C += [('two-qubit matrix on one', rng.choice([o.Rxx(.3), o.Rzz(.1), U(2)]), (q[0],)), ('gate without matrix', rng.choice([o.QFT, o.Entangle, o.get_inverse(o.QFT), o.BasicGate()]), (q,))]
    return rng.choice(C)


def simdrv_unitary(rng, k):
    a = simdrv.nprng(rng).normal(size=(2, 1 << k, 1 << k))
    return np.linalg.qr(a[0] + 1j * a[1])[0]


def backend_misuse(rng, eng, q, dead, classical=False, optimizer=False):
    """A statement only the last engine can reject: (kind, function)."""
    import projectq.ops as o
    from projectq.libs.math import AddConstant, AddConstantModN, AddQuantum, ComparatorQuantum, DivideQuantum, MultiplyByConstantModN, MultiplyQuantum, SubtractQuantum
    from projectq.meta import Control
    from projectq.ops import Command, apply_command
    from projectq.types import WeakQubitRef
    a = rng.choice(q)
    unknown = WeakQubitRef(eng, rng.choice(dead + [10**6 + rng.randrange(100), 2**20]))
    rest = [x for x in q if x is not a]
    pick = rng.sample(q, len(q))
    one = rng.choice([o.X, o.H, o.Rx(.3), o.T]) if not classical else o.X
    L = [
        ('unknown target', lambda: one | unknown),
        ('unknown control', lambda: within(lambda: Control(eng, [unknown]), lambda: one | a)),
        ('unknown qubit of a register', lambda: AddConstant(1) | [a, unknown]),
        ('unknown qubit measured', lambda: o.Measure | unknown),
        ('unknown qubit deallocated', lambda: o.Deallocate | unknown),
        ('constant on two registers', lambda: rng.choice([AddConstant(1), AddConstantModN(1, 2), MultiplyByConstantModN(1, 2)]) | (a, rest[0])),
        ('function with too few results', lambda: o.BasicMathGate(lambda x, y: (x,)) | (a, rest[0])),
        ('function with too many results', lambda: o.BasicMathGate(lambda x: (x, x)) | (a,)),
        ('function of another number', lambda: o.BasicMathGate(lambda x, y: (x, y)) | (a,)),
        ('addition of unequal registers', lambda: rng.choice([AddQuantum, o.get_inverse(AddQuantum)]) | (a, rest[:2])),
        ('addition of four registers', lambda: AddQuantum | (pick[0], pick[1], pick[2], pick[3])),
        ('addition of one register', lambda: rng.choice([AddQuantum, SubtractQuantum]) | q),
        ('comparison without a result', lambda: ComparatorQuantum | (a, rest[0])),
        ('comparison to two qubits', lambda: ComparatorQuantum | (pick[0], pick[1], pick[2:4])),
        ('division of two registers', lambda: DivideQuantum | (a, rest[0])),
        ('division of unequal registers', lambda: DivideQuantum | (pick[0], pick[1], pick[2:4])),
        ('multiplication of two', lambda: MultiplyQuantum | (a, rest[0])),
        ('allocated twice', lambda: o.Allocate | a),
        ('measurement with a control', lambda: apply_command(Command(eng, o.Measure, ([a],), controls=[rest[0]]))),
    ]
    if dead:
        z = WeakQubitRef(eng, rng.choice(dead))
        L += [('released target', lambda: one | z), ('released control', lambda: within(lambda: Control(eng, [z]), lambda: one | a)), ('released qubit measured', lambda: o.Measure | z),
              ('released twice', lambda: o.Deallocate | z)]
    need = {'constant on two registers': 2, 'function with too few results': 2, 'addition of unequal registers': 3, 'addition of four registers': 4, 'comparison without a result': 2,
            'comparison to two qubits': 4, 'division of two registers': 2, 'division of unequal registers': 4, 'multiplication of two': 2, 'measurement with a control': 2}
    while True:
        if not classical and rng.random() < .4:
            s = shapes(rng, pick)
            return s[0], lambda: s[1] | s[2]
        k, f = rng.choice(L)
        if len(q) < need.get(k, 1):
            continue
        return k, f


class Sim(simdrv.EngineRun):
    dead = ()

    def step(self, st):
        if st[0] == 'misuse':
            return self.misuse()
        if st[0] == 'dealloc':
            i = self.r.ids[st[1]]
            super().step(st)
            self.dead = list(self.dead) + [i]
            return
        super().step(st)

    def misuse(self):
        eng = self.eng
        q = list(self.r.q.values())
        if not q:
            return
        eng.flush()
        mp, v = self.cheat()
        mp, v = dict(mp), np.array(v, complex)
        kind, f = backend_misuse(self.rng, eng, q, list(self.dead))
        try:
            f()
            eng.flush()
        except Violation:
            raise
        except Exception as e:
            self.ctx.count('rejected_by_simulator')
            self.ctx.sig('simulator', kind, type(e).__name__)
        else:
            raise Violation('accepted:' + kind, 'the simulator accepted a malformed statement: %s' % kind, program=self.done[-10:])
        eng.flush()
        m2, v2 = self.cheat()
        v2 = np.array(v2, complex)
        if dict(m2) != mp or v2.shape != v.shape or np.abs(v2 - v).max() > 1e-12:
            raise Violation('effect:' + kind, 'the rejected statement (%s) changed the state of the simulator' % kind, program=self.done[-10:])
        self.done.append('(rejected: %s)' % kind)


def top(rng, body, p):
    out = []
    for st in body:
        out.append(st)
        if rng.random() < p:
            out.append(('misuse',))
    return out + [('misuse',)]


def case_simulator(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer, TagRemover
    import projectq.setups.decompositions.controlstate as cs
    kind = rng.choice(['none', 'optimizer', 'optimizers', 'replacer', 'both'])
    rep = [AutoReplacer(DecompositionRuleSet(modules=[cs]))]
    opt = lambda: LocalOptimizer(rng.choice([1, 2, 5, 50]))
    lst = dict(none=[], optimizer=[opt()], optimizers=[opt(), TagRemover(), opt()], replacer=rep, both=[opt()] + rep + [opt()])[kind]
    g = prog.Gen(rng, max_qubits=5, size=rng.choice([8, 16]), meta=rng.random() < .3, neg=True, max_controls=2)
    body = top(rng, g.program(), .4)
    ctx.describe(dict(engines=kind, program=repr(body)[:3000]))
    eng = MainEngine(Simulator(gate_fusion=rng.random() < .5, rnd_seed=rng.randrange(1 << 31)), lst, verbose=True)
    run = Sim(ctx, eng, rng, every=rng.choice([1, 4]))
    run.run(body)
    ctx.sig('sim', kind, sorted({x[:30] for x in run.done if x.startswith('(')}))
    for x in run.r.q.values():
        x.id = -1


def case_classical(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator
    from projectq.cengines import LocalOptimizer
    from projectq.ops import C, Command, X
    from projectq.types import WeakQubitRef
    lst = rng.choice([lambda: [], lambda: [LocalOptimizer(rng.choice([1, 5]))]])()
    eng = MainEngine(ClassicalSimulator(), lst, verbose=True)
    q = [x for _ in range(rng.randint(4, 6)) for x in eng.allocate_qubit()]
    bits = {x.id: 0 for x in q}
    dead = []
    ok = lambda: {x.id: eng.backend.read_bit(x) for x in q}
    for _ in range(rng.randint(8, 25)):
        r = rng.random()
        if r < .4:
            k = rng.sample(q, rng.randint(1, min(4, len(q))))
            if len(k) == 1:
                X | k[0]
            else:
                C(X, len(k) - 1) | (k[:-1], k[-1])
            bits[k[-1].id] ^= all(bits[x.id] for x in k[:-1])
        elif r < .5 and len(q) > 4:
            x = q.pop(rng.randrange(len(q)))
            dead.append(x.id)
            del bits[x.id]
            eng.deallocate_qubit(x)
            del x
        else:
            eng.flush()
            if rng.random() < .3:
                g, n = rng.choice(nonclassical())
                kind, f = 'quantum gate', lambda: g | (q[:n],)
                if n == 1 and rng.random() < .5:
                    kind, f = 'quantum gate', lambda: g | q[0]
            elif rng.random() < .2:
                kind, f = 'NOT of two qubits', lambda: X | rng.choice([(q[0], q[1]), q[:2]])
            else:
                kind, f = backend_misuse(rng, eng, q, dead, classical=True)
                if kind == 'allocated twice':
                    continue
            before = ok()
            try:
                f()
                eng.flush()
            except Exception as e:
                ctx.count('rejected_by_simulator')
                ctx.sig('classical', kind, type(e).__name__)
            else:
                raise Violation('classical:accepted:' + kind, 'the classical simulator accepted a malformed statement: %s' % kind)
            eng.flush()
            if ok() != before:
                raise Violation('classical:effect:' + kind, 'the rejected statement (%s) changed the bits of the classical simulator: %s -> %s' % (kind, before, ok()))
        eng.flush()
        if ok() != bits:
            raise Violation('classical:bits', 'the bits are %s instead of %s' % (ok(), bits))
        ctx.count('states_compared')
    for x in q:
        x.id = -1


def nonclassical():
    import projectq.ops as o
    return [(o.H, 1), (o.Y, 1), (o.Z, 1), (o.T, 1), (o.Rx(math.pi), 1), (o.QFT, 2), (o.Entangle, 2), (o.MatrixGate([[0, 1], [1, 0]]), 1)]


def case_unitary(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import UnitarySimulator
    g = prog.Gen(rng, max_qubits=4, size=8, meta=False, measure=False, alloc=False, neg=True, max_controls=2)
    body = top(rng, g.program(), .5)
    eng = MainEngine(UnitarySimulator(), [], verbose=True)
    r = prog.Runner(eng)
    m = prog.Machine(0)
    ctx.describe(dict(program=repr(body)[:3000]))
    for st in body:
        if st[0] != 'misuse':
            r.run([st])
            m.run([st])
            continue
        eng.flush()
        q = list(r.q.values())
        u = np.array(eng.backend.unitary)
        while True:
            kind, f = backend_misuse(rng, eng, q, [])
            if kind != 'allocated twice' and (rng.random() < .9 or not kind.startswith(('const', 'func', 'addi', 'comp', 'div', 'mult'))):
                break
        try:
            f()
            eng.flush()
        except Exception as e:
            ctx.count('rejected_by_simulator')
            ctx.sig('unitary', kind, type(e).__name__)
        else:
            raise Violation('unitary:accepted:' + kind, 'the unitary simulator accepted a malformed statement: %s' % kind)
        eng.flush()
        u2 = np.array(eng.backend.unitary)
        if u.shape != u2.shape or np.abs(u - u2).max() > 1e-12:
            raise Violation('unitary:effect:' + kind, 'the rejected statement (%s) changed the unitary' % kind)
    eng.flush()
    v = eng.backend.unitary[:, 0]
    names = sorted(m.state.names, key=lambda n: r.ids[n])
    d = float(np.abs(np.array(v) - m.state.reorder(names)).max())
    if not d < 1e-9:
        raise Violation('unitary:state', 'the unitary differs from the program by %.3g' % d)
    ctx.count('states_compared')
    for x in r.q.values():
        x.id = -1


# ------------------------------------------------------------------------------------------------ too many qubits, compiled
def catalogue(rng):
    """(gate, documented register sizes, kinds of excess that make it malformed)."""
    import projectq.libs.math as m
    import projectq.ops as o
    th = rng.uniform(.1, 6)
    one = [o.X, o.Y, o.Z, o.H, o.S, o.T, o.Sdag, o.Tdag, o.SqrtX, o.Rx(th), o.Ry(th), o.Rz(th), o.R(th), o.Ph(th), o.MatrixGate(simdrv_unitary(rng, 1))]
    two = [o.Swap, o.SqrtSwap]
    k = rng.randint(1, 3)
    reg = [o.QFT, o.get_inverse(o.QFT), o.Entangle, m.AddConstant(1), m.SubConstant(1), m.AddConstantModN(1, 1 << k), m.MultiplyByConstantModN(1, 1 << k),
           o.TimeEvolution(.3, o.QubitOperator('X0')), o.QubitOperator('Y0'), o.StatePreparation([2 ** (-k / 2)] * (1 << k))]
    n = rng.randint(1, 2)
    many = [(o.UniformlyControlledRy([.1] * (1 << n)), [n, 1]), (o.UniformlyControlledRz([.1] * (1 << n)), [n, 1]),
            (o.QPE(o.Rz(.3)), [n, 1]), (o.QAA(lambda eng, q: o.All(o.H) | q, lambda eng, q, a: o.CNOT | (q[0], a)), [2, 1]),
            (m.ComparatorQuantum, [n, n, 1]), (m.DivideQuantum, [n, n, n]), (m.MultiplyQuantum, [n, n, 2 * n + 1]),
            (o.get_inverse(m.DivideQuantum), [n, n, n]), (o.get_inverse(m.MultiplyQuantum), [n, n, 2 * n + 1])]
    c = rng.random()
    if c < .35:
        return rng.choice(one), [1], ('grow', 'extra'), rng.choice([0, 0, 1, 2])
    if c < .5:
        return rng.choice(two), [1, 1], ('extra',), rng.choice([0, 0, 1])
    if c < .75:
        return rng.choice(reg), [k], ('extra',), rng.choice([0, 0, 1])
    g, s = rng.choice(many)
    return g, s, ('extra',), rng.choice([0, 0, 1]) if type(g).__name__ not in ('QPE', 'QAA', 'UniformlyControlledRy', 'UniformlyControlledRz') else 0


def case_compile(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, InstructionFilter
    from projectq.meta import Control
    kind = rng.choice(['compile', 'compile2', 'default', 'restricted', 'restricted2'])
    gate, sizes, ways, nc = catalogue(rng)
    seed = rng.randrange(1 << 30)
    tiny = kind == 'restricted2'
    low = (lambda cmd: c15.low(cmd) and type(cmd.gate).__name__ in ('HGate', 'XGate', 'Rz', 'Rx', 'Ry', 'Ph', 'R') and (
        len(cmd.control_qubits) == 0 or type(cmd.gate).__name__ == 'XGate' and len(cmd.control_qubits) == 1)) if tiny else c15.low
    be = RefBackend(seed=seed, available=low)
    tap = Tap()
    eng = MainEngine(backend=be, engine_list=c15.lists(rng, 'compile' if tiny else kind) + [tap], verbose=True)
    r = prog.Runner(eng)
    g = prog.Gen(rng, max_qubits=4, size=5, meta=False, max_controls=1, gates=['X', 'H', 'Rz'], measure=False, alloc=False)
    body = g.program()
    r.run(body)
    eng.flush()
    wrong = list(sizes)
    way = rng.choice(ways)
    if way == 'grow':
        wrong[-1] += rng.randint(1, 2)
    else:
        wrong.append(rng.randint(1, 2))
    qs = [x for _ in range(sum(wrong) + nc) for x in eng.allocate_qubit()]
    ids = [x.id for x in qs]
    eng.flush()
    n = len(tap.cmds)
    pool = rng.sample(qs, len(qs))
    ctl, pool = pool[:nc], pool[nc:]
    regs = []
    for s in wrong:
        regs.append(pool[:s])
        pool = pool[s:]
    ctx.describe(dict(engines=kind, gate=str(gate), sizes=wrong, controls=nc, documented=sizes))
    try:
        with Control(eng, ctl):
            gate | tuple(regs)
        eng.flush()
    except Exception as e:
        ctx.count('rejected_by_compiler')
        ctx.sig('compiler', type(gate).__name__, way, type(e).__name__, bool(nc), kind)
    else:
        raise Violation('compiled:%s:%s' % (type(gate).__name__, way), '%s was accepted on registers of sizes %s; it acts on %s' % (gate, wrong, sizes),
                        commands=[cmd_repr(c) for c in tap.cmds[n:]][:20])
    eng.flush()
    sent = [cmd_repr(c) for c in tap.cmds[n:] if cmd_kind(c) != 'flush']
    if sent:
        raise Violation('compiled-effect:' + type(gate).__name__, 'the rejected %s on registers of sizes %s sent %s' % (gate, wrong, sent[:10]))
    body2 = [g.gate_stmt(g.live) for _ in range(4)]
    r.run(body2)
    eng.flush()
    m = prog.Machine(seed, lid=lambda n: r.ids[n])
    m.run(body + body2)
    for i, x in enumerate(qs):
        m.state.alloc('extra%d' % i)
        r.ids['extra%d' % i] = ids[i]
    util.compare(ctx, eng, r, m, be)
    if idx < 2:
        ctx.sample('%s: %s on %s' % (kind, gate, wrong))
    for x in list(r.q.values()) + qs:
        x.id = -1


class OwnError(RuntimeError):
    """An error class that cannot be built from a message alone, as those of service libraries."""

    def __init__(self, code, what, *, where):
        super().__init__('%s: %s (%s)' % (code, what, where))
        self.code = code


def errors(rng):
    import json
    n = rng.randrange(1000)
    return rng.choice([
        lambda: KeyError('missing %d' % n), lambda: ValueError('value %d\nsecond line' % n), lambda: OwnError(n, 'refused', where='service'),
        lambda: OSError(n % 100 + 1, 'os %d' % n), lambda: json.JSONDecodeError('bad %d' % n, 'x' * 5, 2), lambda: ZeroDivisionError(),
        lambda: UnicodeDecodeError('utf-8', b'abc', 0, 1, 'odd %d' % n), lambda: NotImplementedError('no %d' % n), lambda: StopIteration('stop %d' % n),
        lambda: AssertionError('assert %d' % n)])


def case_errors(ctx, rng, idx):
    """Whatever an engine or the backend raises reaches the program as that error, shortened or not."""
    from projectq import MainEngine
    from projectq.cengines import CommandModifier
    from projectq.ops import H, X
    make = errors(rng)
    seen = {}
    err = make()
    for verbose in (True, False):
        armed = [False]
        seed = rng.randrange(1 << 30)

        class Faulty(RefBackend):
            def receive(self, cmds):
                if armed[0] and where == 'backend' and any(cmd_kind(c) != 'flush' for c in cmds):
                    armed[0] = False
                    raise make_()
                super().receive(cmds)

        make_ = make
        where = rng.choice(['backend', 'engine', 'modifier'])
        be = Faulty(seed=seed)

        def mod(cmd):
            if armed[0] and where == 'modifier' and cmd_kind(cmd) != 'flush':
                armed[0] = False
                raise make_()
            return cmd
        tap = Tap()
        old = tap.receive

        def receive(cmds):
            if armed[0] and where == 'engine' and any(cmd_kind(c) != 'flush' for c in cmds):
                armed[0] = False
                raise make_()
            old(cmds)
        tap.receive = receive
        eng = MainEngine(be, [tap, CommandModifier(mod)], verbose=verbose)
        q = eng.allocate_qureg(3)
        H | q[0]
        eng.flush()
        armed[0] = True
        how = rng.choice(['gate', 'allocate', 'block'])
        try:
            if how == 'gate':
                X | q[1]
            elif how == 'allocate':
                eng.allocate_qubit()
            else:
                from projectq.meta import Control
                with Control(eng, q[0]):
                    X | q[2]
        except BaseException as e:
            seen[verbose] = e
            ctx.check(isinstance(e, type(err)), 'error-type', 'a %s raised by the %s reaches the program as %s: %s (verbose=%s)' %
                      (type(err).__name__, where, type(e).__name__, str(e)[:200], verbose))
            text = str(err).splitlines()
            ctx.check(not text or text[0].strip("'") in str(e), 'error-text', 'the text of %r is lost: %s' % (err, str(e)[:300]))
            ctx.count('errors_passed_on')
        else:
            raise Violation('error-lost', 'a %s raised by the %s does not reach the program (verbose=%s)' % (type(err).__name__, where, verbose))
        if armed[0]:
            raise RuntimeError('not raised')
        if how != 'allocate':
            from projectq.ops import Measure
            X | q[1]
            Measure | q[1]
            eng.flush()
            ctx.check(int(q[1]) == 1, 'after-error', 'after an error of the %s the engine is wrong' % where)
            live = be.state.names
            ctx.check(len(live) == 3, 'after-error', 'after an error of the %s the qubits are %s' % (where, live))
        ctx.sig('errors', type(err).__name__, where, how, verbose)
        for x in q:
            x.id = -1


JOBS = dict(
    language=Job(case_language, 1000, 12000, variant='rel', shards=2),
    simulator=Job(case_simulator, 300, 4000, variant='rel', shards=2),
    pysim=Job(case_simulator, 100, 1500, shards=1),
    classical=Job(case_classical, 150, 3000, shards=1),
    unitary=Job(case_unitary, 120, 2000, shards=1),
    errors=Job(case_errors, 150, 1500, shards=1),
    compile=Job(case_compile, 1200, 12000, shards=2),
)
