"""C16: measurement results reach exactly the right qubit, through any compiler."""
import builtins
import contextlib
import io

from vlib.harness import Job, Violation
from vlib.pq import RefBackend, Tap, cmd_kind, notes

RULE = ('random programs that put qubits into known, random and correlated Z-basis values (H on known qubits only, X, CNOT, Swap, Toffoli, phases) with '
        'measurements, re-measurements, flushes, releases and re-allocations, on six backends behind mappers and compilers, several engines interleaved; a '
        'symbolic GF(2) monitor knows every qubit as an affine function of fresh coin tosses and turns each value read into an equation: a contradiction is '
        'a wrong value. For interactive and constant backends the value given for a command must be read from the qubit it was sent for. Non-trivial by '
        'correlated reads (values implied by earlier reads), counted')
ASSUMPTIONS = ['a released qubit always has a known value', 'a value is only compared when no measurement of that qubit is waiting for a flush']
MIN = dict(runs=800, implied_reads=6000, unread_errors=5000, answered=3000)


class Affine:
    """Bits as affine functions over GF(2): int masks, bit 0 is the constant."""

    def __init__(self):
        self.nvar = 0
        self.rows = {}      # pivot bit -> reduced mask (mask == 0 holds)

    def fresh(self):
        self.nvar += 1
        return 1 << self.nvar

    def reduce(self, m):
        for p, r in self.rows.items():
            if m >> p & 1:
                m ^= r
        return m

    def const(self, m):
        m = self.reduce(m)
        return m if m in (0, 1) else None

    def learn(self, m, v):
        """Adds m == v; returns 'new', 'implied' or 'contradiction'."""
        m = self.reduce(m ^ v)
        if m == 0:
            return 'implied'
        if m == 1:
            return 'contradiction'
        p = m.bit_length() - 1
        for k in self.rows:
            if self.rows[k] >> p & 1:
                self.rows[k] ^= m
        self.rows[p] = m
        return 'new'


class Prog:
    """One program on one engine, with the symbolic monitor."""

    def __init__(self, ctx, rng, eng, cap, classical, ctrl2, flush_first):
        self.ctx, self.rng, self.eng, self.cap, self.classical, self.ctrl2, self.flush_first = ctx, rng, eng, cap, classical, ctrl2, flush_first
        self.sys = Affine()
        self.q, self.v = {}, {}
        self.reg = {}           # name -> value read from the register of results (None: unread/unknown)
        self.measured = {}      # name -> mask at last measurement that was flushed
        self.waiting = {}       # name -> mask of a measurement not flushed yet
        self.got = {}           # name -> last value read
        self.log = []
        self.n = 0
        self.budget = 1000

    def bad(self, key, msg):
        raise Violation(key, msg, program=self.log[-60:])

    def step(self):
        from projectq.meta import Control
        from projectq.ops import CNOT, CZ, H, Measure, Rz, S, Swap, T, X, Y, Z, All, Toffoli, C, Barrier
        rng, q, v = self.rng, self.q, self.v
        names = list(q)
        op = rng.choice(['alloc', 'gate', 'gate', 'gate', 'two', 'two', 'two', 'two', 'measure', 'measure', 'flush', 'read', 'dealloc', 'diag', 'multi'])
        if op == 'dealloc' and self.n >= self.budget - 1 and len(q) < 2:
            return
        if op == 'alloc' and len(q) < self.cap and self.n < self.budget or not q:
            for _ in range(rng.randint(1, min(3, self.cap - len(q), self.budget - self.n))):
                n = 'q%d' % self.n
                self.n += 1
                q[n] = self.eng.allocate_qubit()[0]
                v[n] = 0
                self.log.append('alloc %s = #%d' % (n, q[n].id))
        elif op == 'gate':
            a = rng.choice(names)
            if not self.classical and rng.random() < .6 and self.sys.const(v[a]) is not None and a not in self.waiting:
                H | q[a]
                v[a] = self.sys.fresh()
                self.log.append('H %s' % a)
            elif not self.classical and rng.random() < .3:
                Y | q[a]
                v[a] ^= 1
                self.log.append('Y %s' % a)
            else:
                X | q[a]
                v[a] ^= 1
                self.log.append('X %s' % a)
        elif op == 'two' and len(names) >= 2:
            a, b = rng.sample(names, 2)
            w = rng.random()
            if w < .55 or self.classical:
                CNOT | (q[a], q[b])
                v[b] ^= v[a]
                self.log.append('CNOT %s %s' % (a, b))
            elif w < .85:
                Swap | (q[a], q[b])
                v[a], v[b] = v[b], v[a]
                self.log.append('Swap %s %s' % (a, b))
            else:
                with Control(self.eng, q[a], ctrl_state='0'):
                    X | q[b]
                v[b] ^= v[a] ^ 1
                self.log.append('C0NOT %s %s' % (a, b))
        elif op == 'multi' and len(names) >= 3 and self.ctrl2:
            a, b, c = rng.sample(names, 3)
            k = self.sys.const(v[a])
            if k is not None:
                Toffoli | (q[a], q[b], q[c])
                v[c] ^= v[b] if k else 0
                self.log.append('Toffoli %s %s %s' % (a, b, c))
        elif op == 'diag' and not self.classical:
            a = rng.choice(names)
            g = rng.choice([Z, S, T, Rz(0.3)])
            g | q[a]
            if len(names) > 1 and rng.random() < .5:
                CZ | (q[a], q[rng.choice([n for n in names if n != a])])
            self.log.append('%s %s' % (g, a))
        elif op == 'measure':
            if self.flush_first:
                self.flush()
            some = rng.sample(names, rng.randint(1, min(4, len(names))))
            if rng.random() < .5:
                for a in some:
                    Measure | q[a]
            else:
                All(Measure) | [q[a] for a in some]
            for a in some:
                self.waiting[a] = v[a]
            self.log.append('Measure %s' % some)
            if self.flush_first:
                self.flush()
        elif op == 'flush':
            self.flush()
        elif op == 'read':
            self.read(rng.choice(names))
        elif op == 'dealloc':
            ok = [n for n in names if self.sys.const(v[n]) is not None and n not in self.waiting]
            if ok:
                a = rng.choice(ok)
                self.read(a)
                del q[a]
                v.pop(a), self.measured.pop(a, None), self.got.pop(a, None)
                self.log.append('release %s' % a)

    def flush(self):
        self.eng.flush()
        self.log.append('flush')
        for a, m in self.waiting.items():
            self.measured[a] = m
            self.got.pop(a, None)
        done = list(self.waiting)
        self.waiting.clear()
        self.rng.shuffle(done)
        for a in done:
            self.read(a)
        for a in self.rng.sample(sorted(self.q), min(2, len(self.q))):
            self.read(a)

    def read(self, a):
        from projectq.cengines import NotYetMeasuredError
        from projectq.types import Qureg
        if a in self.waiting:
            return
        qb = self.q[a]
        how = self.rng.choice(['int', 'bool', 'qureg', 'main', 'intreg'])
        f = {'int': lambda: int(qb), 'bool': lambda: bool(qb), 'qureg': lambda: bool(Qureg([qb])), 'main': lambda: self.eng.get_measurement_result(qb),
             'intreg': lambda: int(Qureg([qb]))}[how]
        if a not in self.measured:
            try:
                x = f()
            except NotYetMeasuredError:
                self.ctx.count('unread_errors')
                return
            self.bad('unmeasured-readable', 'qubit %s (#%d) was never measured, reading it gives %r' % (a, qb.id, x))
        x = f()
        if x not in (0, 1) or (how in ('int', 'intreg')) != (type(x) is int):
            self.bad('result-type', '%s(qubit) is %r' % (how, x))
        if a in self.got:
            if self.got[a] != x:
                self.bad('result-changed', 'qubit %s (#%d) read %d before and %d now, without a new measurement' % (a, qb.id, self.got[a], x))
            return
        self.got[a] = int(x)
        r = self.sys.learn(self.measured[a], int(x))
        self.log.append('%s -> %d' % (a, x))
        self.ctx.count('reads')
        if r == 'contradiction':
            self.bad('wrong-result', 'qubit %s (#%d) reads %d; the program and the values read before leave only %d' % (a, qb.id, x, 1 - x))
        if r == 'implied':
            self.ctx.count('implied_reads')


def backend(ctx, rng, idx, kind):
    from projectq.backends import ClassicalSimulator, Simulator, UnitarySimulator
    if kind == 'ref':
        return RefBackend(seed=idx)
    if kind == 'simulator':
        return Simulator(gate_fusion=rng.random() < .5, rnd_seed=rng.randrange(1 << 30))
    if kind == 'unitary':
        return UnitarySimulator()
    return ClassicalSimulator()


def chain(ctx, rng, kind):
    """(engine list, capacity, two controls allowed)"""
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter, LocalOptimizer, TagRemover
    import projectq.setups.decompositions as dec
    from checks.c13 import make_mapper
    which = rng.choice(['none', 'opt', 'opt', 'compile', 'map', 'map', 'map', 'map+', 'map+'])
    el = []

    def no_neg(eng, cmd):
        return '0' not in cmd.control_state
    def no_swap(eng, cmd):
        return type(cmd.gate).__name__ != 'SwapGate' and '0' not in cmd.control_state
    rules = DecompositionRuleSet(modules=[dec])
    cap, two = 6, True
    if which == 'opt':
        el = [LocalOptimizer(rng.choice([1, 2, 5, 20])), TagRemover(), LocalOptimizer(3)]
    if which == 'compile':
        el = [LocalOptimizer(4), AutoReplacer(rules), TagRemover(), LocalOptimizer(rng.choice([2, 10]))]
    name = which
    if which in ('map', 'map+'):
        mk, mapper, cap, adj, locs, storage = make_mapper(rng, False)
        cap, two, name = min(cap, 6) if mk != 'bounded' else cap, False, which + ':' + mk
        mid = [AutoReplacer(rules), InstructionFilter(no_neg)]
        el = mid + [mapper]
        if which == 'map+':
            el = [LocalOptimizer(rng.choice([2, 6]))] + mid + [LocalOptimizer(3), mapper, LocalOptimizer(rng.choice([1, 8])), TagRemover()]
    else:
        el = el + [AutoReplacer(rules), InstructionFilter(no_swap if kind in ('classical', 'unitary') else no_neg)]
    if kind == 'classical' and which in ('map', 'map+'):
        el += [AutoReplacer(rules), InstructionFilter(no_swap)]
    if rng.random() < .3:
        el.insert(rng.choice([0, len(el), len(el), rng.randint(0, len(el))]), notes(rng))
        name += '+notes'
    return el, cap, two, name


def case_state(ctx, rng, idx, kind=None):
    from projectq import MainEngine
    kind = kind or rng.choice(['ref', 'unitary', 'classical'])
    n = rng.choice([1, 1, 2])
    progs, what = [], []
    for _ in range(n):
        el, cap, two, name = chain(ctx, rng, kind)
        be = backend(ctx, rng, idx, kind)
        eng = MainEngine(backend=be, engine_list=el, verbose=True)
        classical = kind == 'classical'
        if kind == 'unitary':
            cap = min(cap, 5)
        progs.append(Prog(ctx, rng, eng, cap, classical, two, kind == 'unitary'))
        progs[-1].budget = cap if 'bounded' in name else 40 if 'basic' in name else 1000
        what.append(name)
    ctx.describe(dict(backend=kind, engines=what))
    try:
        for _ in range(rng.choice([15, 40, 90]) * n):
            rng.choice(progs).step()
        for p in progs:
            p.flush()
            for a in list(p.q):
                p.read(a)
    finally:
        for p in progs:
            for qb in p.q.values():
                qb.id = -1
    ctx.count('runs')
    ctx.sig(kind, tuple(what), n, min(progs[0].n, 12))
    if idx < 2:
        ctx.sample(dict(backend=kind, engines=what, program=progs[0].log[:12]))


def case_sim(ctx, rng, idx):
    case_state(ctx, rng, idx, 'simulator')


class MTag:
    def __init__(self, lid, n):
        self.key = (lid, n)

    def __eq__(self, o):
        return isinstance(o, MTag) and o.key == self.key

    def __ne__(self, o):
        return not self == o


def case_answers(ctx, rng, idx):
    """Backends which ask the user, or answer with a constant."""
    from projectq import MainEngine
    from projectq.backends import CircuitDrawer, CircuitDrawerMatplotlib, CommandPrinter, ResourceCounter
    from projectq.cengines import LocalOptimizer
    from projectq.ops import CNOT, H, Measure, Rz, X
    from checks.c13 import make_mapper
    kind = rng.choice(['printer', 'latex', 'matplotlib', 'counter'])
    ask = kind != 'counter' and rng.random() < .7
    default = rng.choice([0, 1]) if kind != 'counter' else 0
    be = {'printer': CommandPrinter, 'latex': CircuitDrawer, 'matplotlib': CircuitDrawerMatplotlib}.get(kind)
    be = ResourceCounter() if be is None else be(accept_input=ask, default_measure=default)
    mk, mapper, cap, adj, locs, storage = make_mapper(rng, False)
    el = [LocalOptimizer(rng.choice([1, 5]))] if rng.random() < .5 else []
    if rng.random() < .75:
        el.append(mapper)
    else:
        mk, cap = 'none', 6
    if rng.random() < .3:
        el.insert(rng.choice([0, len(el), len(el)]), notes(rng))
    budget = cap if mk == 'bounded' else 40 if mk == 'basic' else 1000
    total = 0
    cap = min(cap, 6)
    answers, asked, expected, count = [], [], {}, {}
    sent = []

    def mark(cmd):
        if cmd_kind(cmd) == 'measure':
            q = cmd.qubits[0][0].id
            count[q] = count.get(q, 0) + 1
            cmd.tags = list(cmd.tags) + [MTag(q, count[q])]

    def arrive(cmd):
        if cmd_kind(cmd) == 'measure':
            keys = [t.key for t in cmd.tags if isinstance(t, MTag)]
            if len(keys) != 1:
                raise Violation('answers:unknown-measurement', 'a measurement the program did not ask for reaches the backend: %s' % cmd)
            sent.append((keys[0], cmd.qubits[0][0].id))

    class Mark(Tap):
        def receive(self, cmds):
            for c in cmds:
                mark(c)
            self.send(cmds)

    def fake_input(prompt=''):
        key, pid = sent[len(answers)]
        if str(pid) not in ''.join(c if c.isdigit() else ' ' for c in prompt).split()[-1:]:
            raise Violation('answers:prompt', 'the prompt %r does not name qubit %d' % (prompt, pid))
        if rng.random() < .15:
            return rng.choice(['', '2', 'x', '01', ' '])
        v = rng.choice([0, 1])
        answers.append(v)
        expected[key] = v
        return str(v)

    ctx.describe(dict(backend=kind, mapper=mk, ask=ask, default=default))
    eng = MainEngine(backend=be, engine_list=[Mark(keep=False)] + el + [Tap(on_cmd=arrive, keep=False)], verbose=True)
    q = {}
    done, wait = {}, {}
    old = builtins.input
    builtins.input = fake_input
    log = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for step in range(rng.choice([10, 30, 60])):
                op = rng.choice(['alloc', 'gate', 'gate', 'measure', 'measure', 'flush', 'dealloc'])
                if op == 'alloc' and len(q) < cap and total < budget or not q:
                    qb = eng.allocate_qubit()[0]
                    q[qb.id] = qb
                    del qb
                    total += 1
                elif op == 'gate':
                    a = rng.choice(list(q))
                    rng.choice([X, H, Rz(.4)]) | q[a]
                    if len(q) > 1:
                        b = rng.choice([x for x in q if x != a])
                        CNOT | (q[a], q[b])
                elif op == 'measure':
                    a = rng.choice(list(q))
                    Measure | q[a]
                    wait[a] = None
                    log.append('measure #%d' % a)
                elif op == 'dealloc' and len(q) > 1:
                    a = rng.choice(list(q))
                    if a not in wait:
                        del q[a]
                        done.pop(a, None)
                        log.append('release #%d' % a)
                elif op == 'flush':
                    eng.flush()
                    log.append('flush')
                    for a in wait:
                        done[a] = (a, count[a])
                    wait.clear()
                    for a in q:
                        if a in done:
                            want = expected.get(done[a], default) if ask else default
                            if ask and done[a] not in expected:
                                raise Violation('answers:not-asked', 'measurement of qubit %d was never answered' % a, program=log[-30:])
                            got = int(q[a])
                            if got != want:
                                raise Violation('answers:wrong-qubit', 'qubit #%d reads %d, the value given for its measurement was %d' % (a, got, want),
                                                program=log[-30:], mapping=eng.mapper and eng.mapper.current_mapping)
                            ctx.count('answered')
                        else:
                            from projectq.cengines import NotYetMeasuredError
                            try:
                                x = int(q[a])
                            except NotYetMeasuredError:
                                ctx.count('unread_errors')
                            else:
                                raise Violation('answers:unmeasured-readable', 'qubit #%d was not measured but reads %d' % (a, x), program=log[-30:])
            eng.flush()
    finally:
        builtins.input = old
        for x in q.values():
            x.id = -1
    ctx.sig('answers', kind, mk, ask, len(sent) // 4)


def case_registers(ctx, rng, idx):
    """bool/int of registers: only defined for one qubit; results follow the qubit object into any register."""
    from projectq import MainEngine
    from projectq.ops import Measure, X, All
    from projectq.types import Qureg
    be = RefBackend(seed=idx)
    eng = MainEngine(backend=be, engine_list=[], verbose=True)
    n = rng.randint(2, 6)
    reg = eng.allocate_qureg(n)
    bits = [rng.randint(0, 1) for _ in range(n)]
    for b, qb in zip(bits, reg):
        if b:
            X | qb
    All(Measure) | reg
    eng.flush()
    order = rng.sample(range(n), n)
    view = Qureg([reg[i] for i in order])
    if [int(x) for x in view] != [bits[i] for i in order]:
        raise Violation('register:order', 'register view reads %s, bits are %s' % ([int(x) for x in view], [bits[i] for i in order]))
    for f in (bool, int):
        try:
            x = f(view)
        except Exception as e:
            if type(e) is not Exception and not isinstance(e, (ValueError, TypeError)):
                raise
            ctx.count('register_errors')
        else:
            raise Violation('register:many', '%s of a register of %d qubits gives %r' % (f.__name__, n, x))
    # a release in the middle of one register leaves the results of the others alone
    k = rng.randrange(n)
    eng.deallocate_qubit(reg[k])
    eng.flush()
    new = eng.allocate_qubit()
    rest = [i for i in range(n) if i != k]
    if [int(reg[i]) for i in rest] != [bits[i] for i in rest]:
        raise Violation('register:release', 'after releasing qubit %d the others read %s' % (k, [int(reg[i]) for i in rest]))
    from projectq.cengines import NotYetMeasuredError
    for qb in (new[0], reg[k]):
        try:
            x = int(qb)
        except NotYetMeasuredError:
            ctx.count('unread_errors')
        else:
            raise Violation('register:stale', 'a new or released qubit reads %d' % x)
    for qb in list(reg) + list(new):
        qb.id = -1
    ctx.sig('reg', n, k)


JOBS = dict(
    state=Job(case_state, 1500, 14000, shards=4, time_quick=60),
    sim=Job(case_sim, 500, 5000, variant='rel', shards=2, time_quick=60),
    pysim=Job(case_sim, 80, 2000, shards=1, time_quick=60),
    answers=Job(case_answers, 1600, 20000, shards=2, time_quick=60),
    registers=Job(case_registers, 100, 2000, shards=1, time_quick=30),
)
