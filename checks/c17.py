"""C17: resource counts equal what was actually sent through the counter."""
from vlib import prog
from vlib.harness import Job, Violation
from vlib.pq import RefBackend, Tap, cmd_kind, cmd_repr
from checks.c15 import strip

RULE = ('random programs over all gate families and meta blocks (plus gates outside the program generator: estimation, amplification, oracles, arithmetic, '
        'tensors, matrix gates of equal value) through 1-3 counters placed last, in the middle, behind optimizers and behind mappers that re-use ids; a recording '
        'tap in front of each counter recounts everything from scratch at random moments: counts by gate and class, width, depth as longest path, the textual '
        'report line by line, and the forwarded stream object by object. Non-trivial by number of distinct gates and depth')
ASSUMPTIONS = ['measurements and barriers count as operations of depth one, allocation, release and flush as none',
               'two gates are counted together when they are of one class, compare equal and print the same']
MIN = dict(recounts=4000, commands_counted=80000, reports_parsed=2000, forwarded=25000)


class Recount(Tap):
    """Recording tap: keeps an immutable record of everything that goes into the counter."""

    def __init__(self):
        super().__init__(keep=False)
        self.rec = []
        self.objs = []

    def receive(self, command_list):
        for cmd in command_list:
            k = cmd_kind(cmd)
            self.rec.append((k, cmd.gate, len(cmd.control_qubits), [q.id for r in cmd.qubits for q in r], [q.id for q in cmd.control_qubits], cmd_repr(cmd)))
            self.objs.append(cmd)
        self.send(command_list)

    def counts(self):
        by = []
        cls = {}
        live, width, depth, best = set(), 0, {}, 0
        for k, g, nc, t, c, r in self.rec:
            if k == 'flush':
                continue
            for e in by:
                if e[1] == nc and type(e[0]) is type(g) and e[3] == str(g) and e[0] == g:
                    e[2] += 1
                    break
            else:
                by.append([g, nc, 1, str(g)])
            cls[(type(g), nc)] = cls.get((type(g), nc), 0) + 1
            if k in ('alloc', 'allocdirty'):
                live.add(t[0])
                depth[t[0]] = 0
            elif k == 'dealloc':
                live.discard(t[0])
                depth.pop(t[0])
            else:
                qs = set(t) | set(c)
                d = 1 + max(depth[q] for q in qs)
                for q in qs:
                    depth[q] = d
                best = max(best, d)
            width = max(width, len(live))
        return by, cls, width, best


def verify(ctx, tap, counter, where):
    by, cls, width, depth = tap.counts()

    def bad(key, msg):
        raise Violation(key, '%s: %s' % (where, msg), stream=[r[5] for r in tap.rec][-40:])
    got = dict(counter.gate_class_counts)
    if got != cls:
        d = [(k[0].__name__, k[1], got.get(k), cls.get(k)) for k in set(got) | set(cls) if got.get(k) != cls.get(k)]
        bad('class-counts', 'class counts (class, controls, counter, stream): %s' % d[:5])
    got = dict(counter.gate_counts)
    for g, nc, n, _ in by:
        x = got.pop((g, nc), None)
        if x != n:
            bad('gate-counts', '%s with %d controls: counted %s, the stream has %d' % (g, nc, x, n))
    if got:
        bad('gate-counts', 'counted but not in the stream: %s' % list(got.items())[:4])
    if counter.max_width != width:
        bad('width', 'max_width %s, the stream has %d' % (counter.max_width, width))
    if counter.depth_of_dag != depth:
        bad('depth', 'depth_of_dag %s, longest path %d' % (counter.depth_of_dag, depth))
    ctx.count('recounts')
    return by, cls, width, depth


def report(ctx, counter, by, cls, width):
    text = str(counter)
    if not by:
        if text != '(No quantum resources used)':
            raise Violation('report:empty', repr(text))
        return
    head, rest = text.split('Gate class counts:\n', 1)
    a, rest = rest.split('\n\nGate counts:\n', 1)
    b, tail = rest.rsplit('\n\nMax. width (number of qubits) : ', 1)
    la = sorted(x.strip() for x in a.split('\n'))
    wa = sorted('C' * nc + c.__name__ + ' : %d' % n for (c, nc), n in cls.items())
    if head or la != wa:
        raise Violation('report:classes', 'class lines %s, counts %s' % (la, wa))
    want = sorted('C' * nc + str(g) + ' : %d' % n for g, nc, n, _ in by)
    got = sorted(b.split('\n    ')) if b.startswith('    ') is False else sorted(b[4:].split('\n    '))
    if got != want:
        raise Violation('report:gates', 'gate lines %s, counts %s' % ([x for x in got if x not in want][:4], [x for x in want if x not in got][:4]))
    if tail != '%d.' % width:
        raise Violation('report:width', repr(tail))
    ctx.count('reports_parsed')


def named_a(eng=None, reg=None):
    pass


def named_b(*a):
    pass


def extra_gates(rng):
    """(gate, sizes) outside the program generator; nothing executes them."""
    import numpy as np
    import projectq.libs.math as m
    import projectq.ops as o
    from vlib import ref
    h = o.QubitOperator('X0 Z1', rng.choice([.5, 1, 2])) + o.QubitOperator('Y0', .25)
    u = ref.random_unitary(np.random.default_rng(rng.randrange(3)), 2)
    return rng.choice([
        (o.QPE(o.X), (2, 1)), (o.get_inverse(o.QPE(o.X)), (2, 1)), (o.QAA(named_a, named_b), (3,)), (o.StatePreparation([.6, .8]), (1,)), (o.QubitOperator('X0 Z1', rng.choice([1, -1, 1j])), (2,)),
        (o.TimeEvolution(rng.choice([.1, .2, -.1]), h), (2,)), (o.MatrixGate(u), (1,)), (o.MatrixGate(u.tolist()), (1,)),
        (o.MatrixGate(np.array([[0, 1], [1, 0]])), (1,)), (m.AddQuantum, (2, 2)), (m.SubtractQuantum, (2, 2)), (m.ComparatorQuantum, (2, 2, 1)),
        (m.MultiplyQuantum, (2, 2, 5)), (m.DivideQuantum, (2, 2, 2)), (o.get_inverse(m.AddQuantum), (2, 2)), (o.get_inverse(m.MultiplyQuantum), (2, 2, 5)),
        (m.AddConstant(rng.randint(-3, 3)), (3,)), (m.SubConstant(2), (3,)), (m.AddConstantModN(1, 5), (3,)), (m.MultiplyByConstantModN(2, 5), (3,)),
        (o.BasicMathGate(lambda x: (x,)), (2,)), (o.Barrier, (2,)), (o.FlipBits([0, 1]), (2,)), (o.FlipBits('01'), (2,)), (o.FlipBits(2), (2,)),
        (o.UniformlyControlledRy([.1, .2]), (1, 1)), (o.UniformlyControlledRz([.1, .2]), (1, 1)), (o.get_inverse(o.QFT), (2,)), (o.Rz(.5), (1,)),
        (o.Rz(.5 + 1e-13), (1,)), (o.R(.5), (1,)), (o.Ph(.5), (1,)), (o.get_inverse(o.Rz(-.5)), (1,)), (o.Entangle, (3,)), (o.SqrtX, (1,)),
        (o.get_inverse(o.SqrtX), (1,)), 
    ])


def placement(rng):
    from projectq.backends import ResourceCounter
    from projectq.cengines import LocalOptimizer, TagRemover
    kind = rng.choice(['last', 'middle', 'twice', 'optimized', 'mapped', 'mapped'])
    counters, taps = [], []

    def pair():
        t, c = Recount(), ResourceCounter()
        taps.append(t), counters.append(c)
        return [t, c]
    if kind == 'last':
        return kind, pair(), None, taps, counters
    if kind == 'middle':
        return kind, pair(), 'ref', taps, counters
    if kind == 'twice':
        return kind, pair() + [TagRemover(), LocalOptimizer(rng.choice([1, 5, 20]))] + pair(), rng.choice([None, 'ref']), taps, counters
    if kind == 'optimized':
        return kind, [LocalOptimizer(rng.choice([2, 5, 20]))] + pair() + [LocalOptimizer(3)] + pair(), rng.choice([None, 'ref']), taps, counters
    from projectq.cengines import GridMapper, LinearMapper
    mapper = rng.choice([lambda: LinearMapper(6, cyclic=rng.random() < .5, storage=rng.choice([1, 5, 1000])), lambda: GridMapper(2, 3, storage=rng.choice([1, 5, 1000]))])()
    return kind, pair() + [mapper] + pair(), rng.choice([None, 'ref']), taps, counters


def case_count(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.meta import Control
    kind, engines, backend, taps, counters = placement(rng)
    mapped = kind == 'mapped'
    kw = dict(gates=['X', 'H', 'T', 'S', 'Rz', 'Swap', 'Rzz'], max_controls=1, meta=False, multi=False, minq=2, highlevel=False, math_gates=False) if mapped else {}
    g = prog.Gen(rng, max_qubits=5, size=rng.choice([10, 30, 60]), **kw)
    body = g.program()
    if mapped:
        from checks.c13 import too_wide
        body = [st for st in body if not too_wide([st], 0)]
    out = Tap()
    be = RefBackend(seed=idx, execute=False)
    ctx.describe(dict(placement=kind, backend=backend, program=repr(body)[:2000]))
    if backend is None:
        be, engines = engines[-1], engines[:-1]
    else:
        engines = engines + [out]
    eng = MainEngine(backend=be, engine_list=engines, verbose=True)
    if backend is None:
        # programs cannot branch on outcomes which are always zero: they still may
        pass
    r = prog.Runner(eng)
    verify(ctx, taps[0], counters[0], 'empty')
    report(ctx, counters[0], [], {}, 0)
    held = []
    for st in body + [('flush',)]:
        r.run([st])
        if not mapped and rng.random() < .3:
            gate, sizes = extra_gates(rng)
            regs = [eng.allocate_qureg(s) for s in sizes]
            with Control(eng, held) if rng.random() < .3 and len(held) and gate.__class__.__name__ != 'BarrierGate' else Nothing():
                gate | tuple(regs)
                if rng.random() < .5:
                    gate | tuple(regs)
            if rng.random() < .3:
                held = regs[0]
            del regs
        if rng.random() < .08:
            for t, c in zip(taps, counters):
                by, cls, w, d = verify(ctx, t, c, kind)
            report(ctx, counters[0], *verify(ctx, taps[0], counters[0], kind)[:3])
    held = []
    eng.flush(deallocate_qubits=True)
    nd = 0
    for i, (t, c) in enumerate(zip(taps, counters)):
        by, cls, w, d = verify(ctx, t, c, '%s, counter %d' % (kind, i))
        report(ctx, c, by, cls, w)
        ctx.count('commands_counted', len(t.rec))
        nd = max(nd, d)
    if backend == 'ref':
        want = taps[-1]
        if len(out.cmds) != len(want.rec):
            raise Violation('forward:number', '%d commands in, %d out' % (len(want.rec), len(out.cmds)))
        for a, o, b in zip(want.rec, want.objs, out.cmds):
            if a[5] != cmd_repr(b) or a[1] != b.gate:
                raise Violation('forward:changed', 'in %s, out %s' % (a[5], cmd_repr(b)))
            ctx.count('forwarded')
    ctx.sig(kind, backend, len(by), nd // 3, w)
    if idx < 2:
        ctx.sample(dict(placement=kind, width=w, depth=nd, gates=[(str(x), nc, n) for x, nc, n, _ in by][:6]))


class Nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def case_avail(ctx, rng, idx):
    """A last counter accepts everything; one in the middle answers for the rest of the chain."""
    from projectq import MainEngine
    from projectq.backends import ResourceCounter
    from projectq.cengines import InstructionFilter
    c = ResourceCounter()
    salt = rng.randrange(1000)

    def f(eng, cmd):
        return hash((str(cmd.gate), len(cmd.control_qubits), salt)) % 2 == 0
    last = rng.random() < .5
    asked = []

    class B(Tap):
        def is_available(self, cmd):
            asked.append(cmd)
            return f(None, cmd)
    tap = Recount()
    eng = MainEngine(backend=c if last else B(keep=False), engine_list=[tap] if last else [tap, c], verbose=True)
    from projectq.ops import Command
    from projectq.types import WeakQubitRef
    for _ in range(20):
        gate, sizes = extra_gates(rng)
        n = 0
        regs = []
        for s in sizes:
            regs.append([WeakQubitRef(eng, n + i) for i in range(s)])
            n += s
        ctl = [WeakQubitRef(eng, n + i) for i in range(rng.choice([0, 0, 1, 2]))]
        cmd = Command(eng, gate, tuple(regs), controls=ctl)
        want = True if last else f(None, cmd)
        if c.is_available(cmd) != want:
            raise Violation('availability', 'counter %s answers %s for %s' % ('last' if last else 'in the middle', not want, cmd_repr(cmd)))
        ctx.count('availability')
    if c.gate_counts or c.gate_class_counts or c.max_width:
        raise Violation('availability:counted', 'a question was counted')
    ctx.sig('avail', last, salt % 8)


JOBS = dict(count=Job(case_count, 900, 20000, shards=6, time_quick=60), avail=Job(case_avail, 100, 2000, shards=1, time_quick=30))
