"""C25: the classical simulator computes bits exactly and refuses non-classical gates."""
import math

from checks.c07 import make
from vlib.harness import Job, Violation
from vlib.pq import RefBackend, Tap, cmd_repr, notes

RULE = ('random histories of qubit creation and deletion, NOT with up to five controls of either value, arithmetic gates (shipped and user-defined) on registers of '
        'shuffled qubits up to 60 bits, reads, writes and measurements, directly, behind the optimizer/replacer, behind a relabelling mapper and as a middle engine; '
        'a dictionary of bits is the oracle, compared bit by bit after every few events. Quantum gates are offered at random points')
ASSUMPTIONS = ['up to 60 live qubits', 'arithmetic gates inside their documented domains']
MIN = dict(bits_compared=20000, gates=3000, refused=200, writes=200, deletions=200)


def relabel(m):
    """A mapper that assigns every qubit the next number of a fixed shuffled list."""
    from projectq.cengines import BasicMapperEngine

    class Relabel(BasicMapperEngine):
        def __init__(self):
            super().__init__()
            self.current_mapping = {}
            self.free = list(m)

        def receive(self, command_list):
            from projectq.ops import Allocate, Deallocate
            for cmd in command_list:
                for reg in cmd.all_qubits:
                    for q in reg:
                        if q.id != -1 and q.id not in self.current_mapping and cmd.gate == Allocate:
                            mm = dict(self.current_mapping)
                            mm[q.id] = self.free.pop(0)
                            self.current_mapping = mm
                last = cmd.qubits[0][0].id if cmd.gate == Deallocate else None
                self._send_cmd_with_mapped_ids(cmd)
                if last is not None:
                    mm = dict(self.current_mapping)
                    self.free.append(mm.pop(last))
                    self.current_mapping = mm
    return Relabel()


def wide(rng, budget):
    import projectq.libs.math as m
    k = rng.choice(['addc', 'subc', 'add', 'sub', 'addmod', 'mulmod', 'cmp', 'mul'])
    w = rng.randint(1, budget)
    c = rng.choice([0, 1, -1, 1 << w, (1 << w) - 1, rng.getrandbits(w), -rng.getrandbits(w + 3), rng.getrandbits(w + 9), 2**63, -2**64 - 1])
    if k == 'addc':
        return k, m.AddConstant(c), [w], lambda v: [v[0] + c], lambda v: True
    if k == 'subc':
        return k, m.SubConstant(c), [w], lambda v: [v[0] - c], lambda v: True
    if k in ('addmod', 'mulmod'):
        N = rng.randint(max(1, (1 << w) // 2), 1 << w)
        a = rng.randrange(N)
        if k == 'addmod':
            return k, m.AddConstantModN(a, N), [w], lambda v: [(v[0] + a) % N], lambda v: v[0] < N
        while math.gcd(a, N) != 1:
            a = rng.randrange(N)
        return k, m.MultiplyByConstantModN(a, N), [w], lambda v: [v[0] * a % N], lambda v: v[0] < N
    w = max(1, budget // 3)
    if k == 'add':
        return k, m.AddQuantum, [w, w], lambda v: [v[0], v[0] + v[1]], lambda v: True
    if k == 'sub':
        return k, m.SubtractQuantum, [w, w], lambda v: [v[0], v[1] - v[0]], lambda v: True
    if k == 'cmp':
        return k, m.ComparatorQuantum, [w, w, 1], lambda v: [v[0], v[1], v[2] ^ int(v[0] > v[1])], lambda v: True
    w = max(1, budget // 5)
    return k, m.MultiplyQuantum, [w, w, 2 * w + 1], lambda v: [v[0], v[1], v[2] + v[0] * v[1]], lambda v: True


def quantum(rng):
    import projectq.ops as o
    return rng.choice([(o.H, 1), (o.Y, 1), (o.Z, 1), (o.Ph(.3), 1), (o.Rx(math.pi), 1), (o.SqrtX, 1), (o.Swap, 2), (o.QFT, 2), (o.T, 1), (o.Entangle, 2),
                       (o.QubitOperator('Y0 X1'), 2), (o.TimeEvolution(1., o.QubitOperator('X0')), 1), (o.MatrixGate([[0, 1], [1, 0]]), 1), (o.StatePreparation([0, 1]), 1),
                       (o.BasicGate(), 1), (o.FlipBits([1, 1]), 2), (o.Rzz(.3), 2)])


def case(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer, TagRemover
    from projectq.meta import Compute, Control, Dagger, Uncompute
    from projectq.ops import CNOT, NOT, X, All, Measure, Swap, Toffoli
    import projectq.setups.decompositions as dec
    setup = rng.choice(['plain', 'plain', 'optimizer', 'replacer', 'mapper', 'middle'])
    sim = ClassicalSimulator()
    big = rng.random() < .3
    most = rng.choice([60, 60, 60, 90, 140]) if big else rng.randint(3, 16)
    engines = []
    follow = None
    if setup == 'optimizer':
        engines = [TagRemover(), LocalOptimizer(rng.choice([2, 5, 20]))]
    elif setup == 'replacer':
        engines = [AutoReplacer(DecompositionRuleSet(modules=[dec])), TagRemover(), LocalOptimizer(5)]
    elif setup == 'mapper':
        ids = list(range(200))
        rng.shuffle(ids)
        engines = [relabel(ids)]
    if setup == 'middle':
        engines, backend = [Tap(lambda cmd: sent.append(cmd_repr(cmd))), sim], RefBackend(seed=idx, execute=False)
        follow = backend
    else:
        backend = sim
    if setup != 'middle' and rng.random() < .3:
        engines.append(notes(rng))
    eng = MainEngine(backend=backend, engine_list=engines, verbose=True)
    bits, live, log = {}, [], []
    sent = []

    def add(k=1):
        for _ in range(k):
            q = eng.allocate_qubit()[0]
            live.append(q)
            bits[q.id] = 0
            log.append('new %d' % q.id)

    def value(reg):
        return sum(bits[q.id] << i for i, q in enumerate(reg))

    def put(reg, v):
        for i, q in enumerate(reg):
            bits[q.id] = v >> i & 1

    def verify(where):
        eng.flush()
        for q in live:
            got = sim.read_bit(q)
            ctx.count('bits_compared')
            if got != bits[q.id]:
                raise Violation('bit', 'qubit %d reads %s, the circuit gives %d (%s)' % (q.id, got, bits[q.id], where), log=log[-40:])
        if live:
            reg = rng.sample(live, rng.randint(1, len(live)))
            if sim.read_register(reg) != value(reg):
                raise Violation('register', 'register %s reads %s, expected %s (%s)' % ([q.id for q in reg], sim.read_register(reg), value(reg), where), log=log[-40:])

    def controls(pool):
        n = min(len(pool), rng.choice([0, 0, 1, 1, 2, 3, 5]))
        c = rng.sample(pool, n)
        return c, [rng.choice([1, 1, 0]) for _ in c]

    ctx.describe(log)
    log.append('setup ' + setup)
    try:
        add(rng.randint(1, most))
        if big:
            add(max(0, (30 if most == 60 else most - 10) - len(live)))
        for q in live:
            if rng.random() < .5:
                X | q
                bits[q.id] ^= 1
                log.append('X %d' % q.id)
        for step in range(rng.randint(5, 40)):
            ev = rng.choice(['not', 'not', 'not', 'math', 'math', 'math', 'math', 'new', 'del', 'write', 'writereg', 'measure', 'refuse', 'dagger', 'compute', 'shorthand', 'badwrite', 'verify'])
            if ev == 'new' and len(live) < most:
                add(rng.randint(1, 3))
            elif ev == 'del' and len(live) > 1:
                if setup in ('optimizer', 'replacer'):
                    eng.flush()
                q = live.pop(rng.randrange(len(live)))
                log.append('del %d (=%d)' % (q.id, bits[q.id]))
                bits.pop(q.id)
                eng.deallocate_qubit(q)
                ctx.count('deletions')
            elif ev == 'not' and live:
                q = rng.choice(live)
                c, cs = controls([x for x in live if x is not q])
                log.append('X %d c%s=%s' % (q.id, [x.id for x in c], cs))
                if c:
                    with Control(eng, c, ctrl_state=''.join(map(str, cs))):
                        rng.choice([X, NOT]) | q
                else:
                    X | q
                if all(bits[x.id] == s for x, s in zip(c, cs)):
                    bits[q.id] ^= 1
                ctx.count('gates')
                ctx.sig('not', len(c), sum(cs), setup)
            elif ev == 'shorthand' and len(live) >= 3:
                a, b, t = rng.sample(live, 3)
                k = rng.choice(['cnot', 'toffoli', 'swap'] if setup == 'replacer' else ['cnot', 'toffoli'])
                log.append('%s %d %d %d' % (k, a.id, b.id, t.id))
                if k == 'cnot':
                    CNOT | (a, t)
                    bits[t.id] ^= bits[a.id]
                elif k == 'toffoli':
                    Toffoli | (a, b, t)
                    bits[t.id] ^= bits[a.id] & bits[b.id]
                else:
                    Swap | (a, t)
                    bits[a.id], bits[t.id] = bits[t.id], bits[a.id]
                ctx.count('gates')
            elif ev in ('math', 'dagger', 'compute') and live:
                c, cs = controls(live[:len(live) // 2])
                pool = [q for q in live if not any(q is x for x in c)]
                if not pool:
                    continue
                name, gate, ws, fn, dom = wide(rng, len(pool)) if len(pool) > 12 or rng.random() < .3 else make(rng, len(pool))
                if sum(ws) > len(pool):
                    continue
                qs = rng.sample(pool, sum(ws))
                regs, p = [], 0
                for w in ws:
                    regs.append(qs[p:p + w])
                    p += w
                vals = [value(r) for r in regs]
                on = all(bits[x.id] == s for x, s in zip(c, cs))
                if not dom(vals):
                    if on or rng.random() < .5:
                        continue
                if ev == 'dagger' and name not in ('addc', 'subc', 'addmod', 'submod'):
                    continue

                def go():
                    if c:
                        with Control(eng, c, ctrl_state=''.join(map(str, cs))):
                            gate | tuple(regs)
                    else:
                        gate | tuple(regs)
                log.append('%s %s %s c%s=%s on %s = %s' % (ev, name, gate, [x.id for x in c], cs, [[q.id for q in r] for r in regs], vals))
                out = [v % (1 << w) for v, w in zip(fn(vals), ws)] if on else vals
                if ev == 'compute' and name in ('addc', 'subc', 'addmod', 'submod'):
                    t = rng.choice(live)
                    if any(t is x for x in qs + c):
                        continue
                    with Compute(eng):
                        go()
                    CNOT | (qs[0], t)
                    bits[t.id] ^= out[0] & 1
                    Uncompute(eng)
                elif ev == 'dagger':
                    go()
                    with Dagger(eng):
                        go()
                else:
                    go()
                    for r, v in zip(regs, out):
                        put(r, v)
                ctx.count('gates')
                ctx.sig(name, tuple(ws), len(c), sum(cs), setup)
            elif ev in ('write', 'writereg') and live:
                eng.flush()
                if ev == 'write':
                    q, v = rng.choice(live), rng.choice([0, 1, True, False])
                    sim.write_bit(q, v)
                    put([q], int(v))
                    log.append('write %d=%d' % (q.id, v))
                else:
                    r = rng.sample(live, rng.randint(1, len(live)))
                    v = rng.choice([0, (1 << len(r)) - 1, rng.getrandbits(len(r))])
                    sim.write_register(r, v)
                    put(r, v)
                    log.append('write %s=%d' % ([q.id for q in r], v))
                ctx.count('writes')
            elif ev == 'badwrite' and live:
                eng.flush()
                r = rng.sample(live, rng.randint(1, min(5, len(live))))
                v = rng.choice([-1, 1 << len(r), (1 << len(r)) + 3, -(1 << len(r))])
                try:
                    sim.write_register(r, v)
                except ValueError:
                    ctx.count('refused')
                else:
                    raise Violation('write-accepted', 'value %d accepted for %d bits' % (v, len(r)))
            elif ev == 'measure' and live and setup != 'middle':
                r = rng.sample(live, rng.randint(1, min(4, len(live))))
                log.append('measure %s' % [q.id for q in r])
                All(Measure) | r
                eng.flush()
                for q in r:
                    if int(q) != bits[q.id]:
                        raise Violation('measured', 'qubit %d measured %d, is %d' % (q.id, int(q), bits[q.id]), log=log[-40:])
                    ctx.count('bits_compared')
            elif ev == 'refuse' and live and setup == 'plain':
                g, n = quantum(rng)
                if n > len(live):
                    continue
                qs = rng.sample(live, n)
                arg = tuple(qs) if n == 2 and type(g).__name__ in ('SwapGate', 'Rzz') else qs
                log.append('offer %s' % type(g).__name__)
                cmd = g.generate_command(arg)
                if type(g).__name__ not in ('FlipBits',):
                    if sim.is_available(cmd):
                        raise Violation('available', '%s declared executable' % cmd_repr(cmd))
                    try:
                        g | arg
                        eng.flush()
                    except Exception:
                        ctx.count('refused')
                    else:
                        raise Violation('executed', '%s executed without error' % cmd_repr(cmd), log=log[-20:])
                    verify('after refusing %s' % type(g).__name__)
            elif ev == 'verify':
                verify('step %d' % step)
        verify('end')
        if follow is not None:
            if follow.life.errors:
                raise Violation('forwarded', follow.life.errors[0], log=follow.log[-30:])
            if follow.log != sent:
                raise Violation('not-forwarded', 'the next engine saw another stream', got=follow.log[-30:], want=sent[-30:])
    finally:
        for q in live:
            q.id = -1


def case_available(ctx, rng, idx):
    """What the backend declares executable is executed exactly; the replacer rewrites or reports the rest."""
    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer
    from projectq.meta import Control
    from projectq.ops import H, X, Measure, NOT
    import projectq.setups.decompositions as dec
    sim = ClassicalSimulator()
    eng = MainEngine(backend=sim, engine_list=[AutoReplacer(DecompositionRuleSet(modules=[dec])), LocalOptimizer(5)], verbose=True)
    n = rng.randint(1, 6)
    q = eng.allocate_qureg(n)
    v = rng.getrandbits(n)
    for i in range(n):
        if v >> i & 1:
            X | q[i]
    g, k = quantum(rng)
    try:
        if type(g).__name__ in ('H', 'HGate', 'T', 'Entangle', 'QFTGate', 'TimeEvolution', 'StatePreparation'):
            try:
                if k > n:
                    return
                g | q[:k]
                eng.flush()
            except Exception:
                ctx.count('refused')
            else:
                raise Violation('executed', '%s executed without error' % g)
            return
        cmdq = rng.sample(range(n), n)
        t, c = cmdq[0], cmdq[1:]
        cs = [rng.choice([0, 1]) for _ in c]
        cmd = X.generate_command(q[t])
        if c:
            cmd.add_control_qubits([q[i] for i in c], ''.join(map(str, cs)))
        declared = sim.is_available(cmd)
        if c:
            with Control(eng, [q[i] for i in c], ctrl_state=''.join(map(str, cs))):
                X | q[t]
        else:
            X | q[t]
        eng.flush()
        if all((v >> i & 1) == s for i, s in zip(c, cs)):
            v ^= 1 << t
        if sim.read_register(q) != v:
            raise Violation('controlled-not', 'register is %s, expected %s (controls %s=%s, declared %s)' % (sim.read_register(q), v, c, cs, declared))
        ctx.count('gates')
        ctx.count('bits_compared', n)
        ctx.sig('avail', n, tuple(cs))
    finally:
        for x in q:
            x.id = -1


JOBS = dict(
    history=Job(case, 4000, 40000, shards=4),
    available=Job(case_available, 400, 3000, shards=1),
)
