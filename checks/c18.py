"""C18: observing and filtering engines pass the program on unaltered."""
import contextlib
import io

from vlib import prog
from vlib.harness import Job, Violation
from vlib.pq import RefBackend, cmd_kind, cmd_parts, cmd_repr
from checks.c17 import Nothing, extra_gates

RULE = ('random programs over all gates, meta blocks, tags and raw command batches through random chains of 1-7 pass-through engines; a monitor in front of '
        'and behind every engine takes immutable snapshots (gate, registers, controls, control values, tags) and compares them command by command; the '
        'printer is compared line by line, the comparing engine with an independent per-qubit comparison, availability answers with the contract. '
        'Non-trivial by engine kinds in the chain')
ASSUMPTIONS = ['a command modifier function may return another command: the result is what must be sent']
MIN = dict(commands_compared=200000, tags_compared=100000, lines_compared=8000, availability=10000, modifier_calls=30000, comparisons=300)


class MyTag:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is type(self) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self.v)


class SubTag(MyTag):
    pass


def snap(cmd):
    return (type(cmd.gate).__name__, str_(cmd.gate), tuple(tuple(q.id for q in r) for r in cmd.qubits), tuple(q.id for q in cmd.control_qubits),
            str(cmd.control_state), tuple(cmd.tags), cmd.gate)


def str_(g):
    try:
        return str(g)
    except Exception:
        return '?'


def show(s):
    return '%s %s controls %s=%s tags %s' % (s[1], s[2], s[3], s[4], s[5])


def engine_class():
    from projectq.cengines import BasicEngine

    class Snap(BasicEngine):
        def __init__(self, stamp=None):
            super().__init__()
            self.rec = []
            self.stamp = stamp
            self.texts = []

        def receive(self, command_list):
            for c in command_list:
                if self.stamp:
                    self.stamp(c)
                self.rec.append(snap(c))
                self.texts.append(str_(c))
            self.send(command_list)
    return Snap


def modify(rng, how):
    """(function, expected transformation of a snapshot)."""
    from projectq.meta import ComputeTag
    if how == 'same':
        return (lambda c: c), (lambda s: s)
    if how == 'tag':
        def f(c):
            c.tags = list(c.tags) + [MyTag('mod')]
            return c
        return f, lambda s: s[:5] + (s[5] + (MyTag('mod'),),) + s[6:]
    if how == 'copy':
        import copy
        return (lambda c: copy.deepcopy(c)), (lambda s: s)
    # another gate
    from projectq.ops import Command, S, T

    def g(c):
        if c.gate == T:
            d = Command(c.engine, S, c.qubits, c.control_qubits, list(c.tags), c.control_state)
            return d
        return c
    return g, lambda s: (type(S).__name__, str(S)) + s[2:6] + (S,) if s[6] == T else s


class Link:
    def __init__(self, kind, engine, expect=None, calls=None, text=None):
        self.kind, self.engine, self.calls, self.text = kind, engine, calls, text
        self.expect = expect or (lambda s: s)


def make(rng, kind):
    from projectq.backends import CircuitDrawer, CircuitDrawerMatplotlib, CommandPrinter, ResourceCounter
    from projectq.cengines import CommandModifier, CompareEngine, DummyEngine, InstructionFilter, TagRemover
    from projectq.meta import ComputeTag, LoopTag, UncomputeTag
    if kind == 'printer':
        return Link(kind, CommandPrinter(accept_input=rng.random() < .5, default_measure=rng.random() < .5))
    if kind == 'printer-in-place':
        return Link(kind, CommandPrinter(in_place=True))
    if kind == 'latex':
        return Link(kind, CircuitDrawer())
    if kind == 'matplotlib':
        return Link(kind, CircuitDrawerMatplotlib())
    if kind == 'counter':
        return Link(kind, ResourceCounter())
    if kind == 'filter':
        return Link(kind, InstructionFilter(lambda e, c: True))
    if kind == 'compare':
        return Link(kind, CompareEngine())
    if kind == 'dummy':
        return Link(kind, DummyEngine(save_commands=rng.random() < .5))
    if kind == 'remover':
        tags = rng.choice([None, [], [ComputeTag], [UncomputeTag], [MyTag], [SubTag], [ComputeTag, SubTag], [int, MyTag], [LoopTag]])
        gone = tuple(tags) if tags else (ComputeTag, UncomputeTag)
        e = TagRemover() if tags is None else TagRemover(tags=tags)
        return Link(kind, e, lambda s: s[:5] + (tuple(t for t in s[5] if not isinstance(t, gone)),) + s[6:])
    how = rng.choice(['same', 'tag', 'copy', 'gate'])
    f, ex = modify(rng, how)
    calls = []

    def counted(c):
        calls.append(snap(c))
        return f(c)
    return Link('modifier-' + how, CommandModifier(counted), ex, calls)


KINDS = ['printer', 'printer-in-place', 'latex', 'matplotlib', 'counter', 'filter', 'compare', 'dummy', 'remover', 'remover', 'modifier', 'modifier']


def same(a, b):
    return a[:6] == b[:6] and (a[6] is b[6] or a[6] == b[6] or type(a[6]).__name__ == 'TimeEvolution')


def case_stream(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.meta import Control
    Snap = engine_class()
    links = [make(rng, rng.choice(KINDS)) for _ in range(rng.randint(1, 7))]
    n = [0]

    def stamp(c):
        n[0] += 1
        if rng.random() < .35:
            c.tags = list(c.tags) + rng.choice([[MyTag(n[0])], [SubTag('x'), MyTag('y')], [5], ['text'], [SubTag(1), 7, SubTag(1)], [MyTag(1), SubTag(1), MyTag(1)]])
    snaps = [Snap(stamp)]
    engines = [snaps[0]]
    for l in links:
        snaps.append(Snap())
        engines += [l.engine, snaps[-1]]
    g = prog.Gen(rng, max_qubits=5, size=rng.choice([8, 20, 40]))
    body = g.program()
    kinds = [l.kind for l in links]
    ctx.describe(dict(engines=kinds, program=repr(body)[:2000]))
    be = RefBackend(seed=idx, execute=False)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        eng = MainEngine(backend=be, engine_list=engines, verbose=True)
        r = prog.Runner(eng)
        for st in body + [('flush',)]:
            r.run([st])
            if rng.random() < .2:
                gate, sizes = extra_gates(rng)
                regs = [eng.allocate_qureg(s) for s in sizes]
                gate | tuple(regs)
                del regs
            if rng.random() < .1 and len(r.q) > 1:
                # a raw batch of commands, handed over as one list
                from projectq.ops import Command, H, T, X
                qs = list(r.q.values())
                a, b = rng.sample(qs, 2)
                batch = [Command(eng, rng.choice([H, T, X]), ([a],), tags=[MyTag(i)]) for i in range(rng.randint(0, 3))]
                batch.append(Command(eng, X, ([a],), controls=[b], control_state=rng.choice(['0', '1', 0, 1])))
                eng.send(batch)
            for i in range(len(links)):
                if len(snaps[i].rec) != len(snaps[i + 1].rec):
                    raise Violation('held-back:' + links[i].kind, '%d commands entered, %d left' % (len(snaps[i].rec), len(snaps[i + 1].rec)))
        r.q.clear()
        eng.flush(deallocate_qubits=True)
    for i, l in enumerate(links):
        a, b = snaps[i].rec, snaps[i + 1].rec
        if len(a) != len(b):
            raise Violation('number:' + l.kind, '%d commands entered, %d left' % (len(a), len(b)))
        for j, (x, y) in enumerate(zip(a, b)):
            ctx.count('commands_compared')
            ctx.count('tags_compared', len(x[5]))
            w = l.expect(x)
            if not same(w, y):
                raise Violation('changed:' + l.kind, 'command %d: expected %s, got %s' % (j, show(w), show(y)))
        if l.calls is not None:
            ctx.count('modifier_calls', len(l.calls))
            if len(l.calls) != len(a) or not all(same(x, y) for x, y in zip(l.calls, a)):
                raise Violation('modifier-calls', 'function called %d times for %d commands (or on other commands)' % (len(l.calls), len(a)))
        if l.kind == 'dummy' and l.engine.save_commands and len(l.engine.received_commands) != len(a):
            raise Violation('dummy-saved', '%d commands saved of %d' % (len(l.engine.received_commands), len(a)))
    printers = [i for i, l in enumerate(links) if l.kind == 'printer']
    if len(printers) == 1 and 'printer-in-place' not in kinds:
        want = [t for t, s in zip(snaps[printers[0]].texts, snaps[printers[0]].rec) if s[0] != 'FlushGate']
        got = out.getvalue().split('\n')[:-1]
        want = '\n'.join(want).split('\n') if want else []
        if want != got:
            k = next((i for i, (x, y) in enumerate(zip(want, got)) if x != y), min(len(want), len(got)))
            raise Violation('printed', 'line %d: printed %r, command %r' % (k, got[k:k + 1], want[k:k + 1]))
        ctx.count('lines_compared', len(want))
    ctx.sig(*sorted(set(kinds)))
    if idx < 2:
        ctx.sample(dict(engines=kinds, stream=[show(s) for s in snaps[-1].rec[:6]]))


def raw(rng, eng, nq, ncmd):
    """A list of raw commands."""
    from projectq.ops import CNOT, H, Command, Rx, S, Swap, T, X
    from projectq.types import WeakQubitRef
    out = []
    for _ in range(ncmd):
        qs = [WeakQubitRef(eng, i) for i in rng.sample(range(nq), min(nq, 3))]
        g = rng.choice([X, H, T, S, Rx(.3), Rx(.4), Swap])
        k = 2 if g == Swap else 1
        nc = rng.randint(0, len(qs) - k) if len(qs) > k else 0
        out.append(Command(eng, g, tuple([q] for q in qs[:k]), controls=qs[k:k + nc], control_state=''.join(rng.choice('01') for _ in range(nc)) if nc else 1,
                           tags=[MyTag(rng.randint(0, 1))] if rng.random() < .3 else ()))
    return out


def per_qubit(cmds):
    d = {}
    for c in cmds:
        s = snap(c)
        key = (s[0], s[1], s[2], tuple(sorted(zip(s[3], s[4]))), s[5])
        for q in {q.id for r in c.all_qubits for q in r}:
            d.setdefault(q, []).append(key)
    return d


def case_compare(ctx, rng, idx):
    """The comparing engine is equal exactly when every qubit saw the same commands in the same order."""
    import copy
    from projectq import MainEngine
    from projectq.cengines import CompareEngine
    nq = rng.randint(2, 5)
    res = []
    a, b = CompareEngine(), CompareEngine()
    ea, eb = MainEngine(backend=a, engine_list=[], verbose=True), MainEngine(backend=b, engine_list=[], verbose=True)
    seed = rng.randrange(1 << 30)
    import random
    ca = raw(random.Random(seed), ea, nq, rng.choice([1, 3, 10]))
    cb = raw(random.Random(seed), eb, nq, len(ca))
    edit = rng.choice(['none', 'swap', 'swap', 'drop', 'gate', 'tag', 'ctrl', 'extra'])
    if edit == 'swap' and len(cb) > 1:
        i = rng.randrange(len(cb) - 1)
        cb[i], cb[i + 1] = cb[i + 1], cb[i]
    elif edit == 'drop':
        cb.pop(rng.randrange(len(cb)))
    elif edit == 'gate':
        from projectq.ops import Ry
        c = rng.choice(cb)
        if len(c.qubits) == 1:
            c.gate = Ry(.123)
    elif edit == 'tag':
        c = rng.choice(cb)
        c.tags = list(c.tags) + [MyTag('other')]
    elif edit == 'ctrl':
        c = rng.choice(cb)
        if c.control_qubits:
            c.control_state = ''.join('1' if x == '0' else '0' for x in c.control_state)
    elif edit == 'extra':
        cb.append(raw(rng, eb, nq, 1)[0])
    ctx.describe(dict(edit=edit, a=[cmd_repr(c) for c in ca], b=[cmd_repr(c) for c in cb]))
    want = per_qubit(ca) == per_qubit(cb)
    if rng.random() < .5:
        a.receive(ca), b.receive(cb)
    else:
        for c in ca:
            a.receive([c])
        for c in cb:
            b.receive([c])
    if (a == b) != want or (b == a) != want:
        raise Violation('compare', 'engines compare %s / %s, the per-qubit streams are %s' % (a == b, b == a, 'equal' if want else 'different'))
    if not a == a or a == 5:
        raise Violation('compare:self', 'engine not equal to itself, or equal to a number')
    text = str(a)
    for line in text.strip('\n').split('\n'):
        k = line.split(' : ')[0]
        if not k.startswith('Qubit '):
            raise Violation('compare:text', repr(line))
    ctx.count('comparisons')
    ctx.sig('compare', edit, want, len(ca))


def case_avail(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.cengines import BasicEngine, ForwarderEngine, InstructionFilter, LastEngineException
    from projectq.ops import Command
    from projectq.types import WeakQubitRef
    links = [make(rng, rng.choice(KINDS)) for _ in range(rng.randint(0, 5))]
    salt = rng.randrange(1000)
    asked = []

    def f(tag):
        def g(cmd):
            s = snap(cmd)
            return hash((s[1], s[2], len(s[3]), salt, tag)) % 2 == 0
        return g
    flt = {}
    for i, l in enumerate(links):
        if l.kind == 'filter' or rng.random() < .2:
            h = f(i)
            e = InstructionFilter(lambda eng, cmd, h=h, i=i: (asked.append((i, eng)), h(cmd))[1])
            links[i] = Link('filter', e)
            flt[i] = (e, h)

    class B(BasicEngine):
        def is_available(self, cmd):
            return f('b')(cmd)

        def receive(self, cmds):
            pass
    kinds = [l.kind for l in links]
    ctx.describe(dict(engines=kinds))
    eng = MainEngine(backend=B(), engine_list=[l.engine for l in links], verbose=True)

    def answer(i, cmd):
        for j in range(i, len(links)):
            if j in flt:
                return flt[j][1](cmd)
            if kinds[j] in ('dummy', 'compare'):
                return True
        return f('b')(cmd)
    for _ in range(25):
        gate, sizes = extra_gates(rng)
        n, regs = 0, []
        for s in sizes:
            regs.append([WeakQubitRef(eng, n + i) for i in range(s)])
            n += s
        cmd = Command(eng, gate, tuple(regs), controls=[WeakQubitRef(eng, n + i) for i in range(rng.choice([0, 0, 1, 2]))], tags=[MyTag(1)])
        before = snap(cmd)
        i = rng.randrange(len(links) + 1)
        target = eng if i == 0 and rng.random() < .5 else (links[i].engine if i < len(links) else eng.backend)
        start = 0 if target is eng else i
        del asked[:]
        got = target.is_available(cmd)
        if got != answer(start, cmd):
            raise Violation('availability:' + (kinds[i] if i < len(links) else 'backend'), 'chain from %d of %s answers %s for %s' % (start, kinds, got, cmd_repr(cmd)))
        if any(flt[k][0] is not e for k, e in asked) or len(asked) > 1:
            raise Violation('availability:filter-call', 'filter function called with the wrong engine or %d times' % len(asked))
        if not same(before, snap(cmd)):
            raise Violation('availability:changed', 'a question changed the command to %s' % cmd_repr(cmd))
        fw = ForwarderEngine(links[0].engine if links else eng.backend)
        fw_engine_answer = fw.is_available(cmd)
        if fw_engine_answer != answer(0, cmd):
            raise Violation('availability:forwarder', 'forwarder answers %s' % fw_engine_answer)
        ctx.count('availability', 2)
    # last engines
    for kind in ('printer', 'latex', 'matplotlib', 'counter', 'dummy', 'compare'):
        l = make(rng, kind)
        e2 = MainEngine(backend=l.engine, engine_list=[], verbose=True)
        if e2.is_available(cmd) is not True:
            raise Violation('availability:last-' + kind, 'last engine refuses %s' % cmd_repr(cmd))

    class Lazy(BasicEngine):
        def receive(self, cmds):
            pass
    e2 = MainEngine(backend=Lazy(), engine_list=[], verbose=True)
    try:
        e2.is_available(cmd)
    except LastEngineException:
        pass
    else:
        raise Violation('availability:last', 'a last engine without an answer does not say so')
    ctx.sig('avail', *sorted(set(kinds)))


def case_forward(ctx, rng, idx):
    """Forwarding engines used to build circuits in the middle of a pipeline."""
    from projectq import MainEngine
    from projectq.cengines import BasicEngine, CommandModifier, ForwarderEngine
    from projectq.meta import Compute, Control, Uncompute
    from projectq.ops import CNOT, H, T, X
    be = RefBackend(seed=idx)
    calls = []
    with_fun = rng.random() < .6

    def mod(c):
        calls.append(snap(c))
        c.tags = list(c.tags) + [MyTag('fw')]
        return c
    Snap = engine_class()
    inner = Snap()

    class Middle(BasicEngine):
        """Replaces every T by a circuit written in the high-level language."""

        def receive(self, cmds):
            for c in cmds:
                if c.gate == T:
                    fw = ForwarderEngine(self, mod) if with_fun else ForwarderEngine(self)
                    fw.next_engine = self.next_engine
                    q = c.qubits[0]
                    for x in q:
                        x.engine = fw
                    with Compute(fw):
                        X | q
                        a = fw.allocate_qubit()
                        CNOT | (q, a)
                    H | a
                    H | a
                    Uncompute(fw)
                else:
                    self.send([c])
    mid = Middle()
    eng = MainEngine(backend=be, engine_list=[mid, inner], verbose=True)
    q = eng.allocate_qureg(rng.randint(1, 3))
    ops = [rng.choice(['T', 'X', 'H']) for _ in range(rng.randint(1, 8))]
    ctx.describe(dict(ops=ops, fun=with_fun))
    nT = 0
    for o in ops:
        x = rng.choice(q)
        if o == 'T':
            T | x
            nT += 1
        else:
            (X if o == 'X' else H) | x
    eng.flush()
    tagged = [s for s in inner.rec if MyTag('fw') in s[5]]
    if with_fun:
        # applied to X, CNOT, H, H; the undone X and CNOT are copies and keep the mark
        if len(calls) != 4 * nT or len(tagged) != 6 * nT or any(s[5].count(MyTag('fw')) != 1 for s in tagged):
            raise Violation('forwarder:calls', 'function called %d times, %d commands carry its mark, %d circuits of four gates (two of them undone)'
                            % (len(calls), len(tagged), nT))
    if be.life.errors or be.errors:
        raise Violation('forwarder:stream', (be.life.errors + be.errors)[0], log=be.log[-30:])
    ctx.count('forwarded_circuits', nT)
    for x in q:
        x.id = -1
    ctx.sig('fw', with_fun, min(nT, 5), len(q))


def case_args(ctx, rng, idx):
    from projectq.cengines import TagRemover
    from projectq.meta import ComputeTag
    for bad in (ComputeTag, (ComputeTag,), 'ComputeTag', {ComputeTag}, 5):
        try:
            TagRemover(tags=bad)
        except TypeError:
            ctx.count('rejected')
        else:
            raise Violation('tagremover-args', 'tags=%r accepted' % (bad,))
    ctx.sig('args')


JOBS = dict(
    stream=Job(case_stream, 1200, 25000, shards=5, time_quick=60),
    compare=Job(case_compare, 600, 10000, shards=1, time_quick=60),
    avail=Job(case_avail, 400, 8000, shards=1, time_quick=60),
    forward=Job(case_forward, 300, 5000, shards=1, time_quick=60),
    args=Job(case_args, 1, 1, shards=1),
)
