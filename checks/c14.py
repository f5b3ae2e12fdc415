"""C14: meta constructs mean what they say."""
import math

import numpy as np

from vlib import prog, ref, util
from vlib.harness import Job, Violation
from vlib.pq import RefBackend, Tap, cmd_kind, cmd_parts, cmd_repr

RULE = ('random nestings (up to four deep) of Control, Compute with Uncompute or CustomUncompute, Dagger and Loop around gates, ancillas that live in one '
        'block or span compute to uncompute, with and without an engine downstream that handles loop tags; the stream is executed on the reference model '
        'and compared with the meaning of the program; misuse and exceptions at random points, followed by a probe program whose commands must arrive '
        'unaltered. Non-trivial: the set of nested feature pairs')
ASSUMPTIONS = ['up to 8 qubits including ancillas', 'an abandoned Dagger or Loop block executes nothing (its commands were never sent), other blocks keep what was sent']
MIN = dict(states_compared=4000, misuse_refused=150, probes=150, lists_changed=300, uncontrolled_compute_commands=100)

INV = {'S': 'Sdag', 'Sdag': 'S', 'T': 'Tdag', 'Tdag': 'T', 'SqrtX': 'SqrtXdag', 'SqrtXdag': 'SqrtX', 'SqrtSwap': 'SqrtSwapdag', 'SqrtSwapdag': 'SqrtSwap'}
SELF = ('X', 'Y', 'Z', 'H', 'Swap')


def inv_stmt(st):
    if st[0] == 'alloc':
        return ('dealloc', st[1], 'del')
    if st[0] == 'dealloc':
        return ('alloc', st[1])
    if st[0] in ('gate', 'cgate'):
        spec = st[1]
        if spec[0] in INV:
            return (st[0], (INV[spec[0]],)) + tuple(st[2:])
        if spec[0] in SELF:
            return st
        if spec[0] in prog.ROT1 + prog.ROT2:
            return (st[0], (spec[0], -spec[1])) + tuple(st[2:])
    return ('dagger', [st])


class Gen(prog.Gen):
    def block(self, live, depth, keep_ok=False):
        rng = self.rng
        if rng.random() < .5:
            return super().block(live, depth)
        if len(live) + depth < self.max_qubits + 2:
            # several ancillas, one of them possibly prepared by a compute section of its own
            a = self.new('a')
            c = rng.choice(live)
            others = [q for q in live if q != c]
            mid = []
            if others:
                mid = [('cgate', self.spec1(), [a], [rng.randint(0, 1)], [[rng.choice(others)]]) for _ in range(rng.randint(0, 2))]
                if rng.random() < .4:
                    s = self.meta_stmt(others, depth + 1)
                    if s:
                        mid.append(s)
            out = [('alloc', a), ('compute', [('cgate', ('X',), [c], [rng.randint(0, 1)], [[a]])], mid, 'un'), ('dealloc', a, 'del')]
            if rng.random() < .5:
                out += self.body(live, depth)
            return out
        return self.body(live, depth)

    def meta_stmt(self, live, depth):
        rng = self.rng
        s = super().meta_stmt(live, depth)
        if s is None:
            return s
        if s[0] == 'loop' and rng.random() < .15:
            s = ('loop', rng.choice([0, 4, 5]), s[2])
        if s[0] == 'compute' and s[1][0][0] != 'alloc' and rng.random() < .45 and len(live) + depth < self.max_qubits + 2:
            s = ('compute', self.block(live, depth + 1), s[2], s[3])
        if s[0] == 'compute' and rng.random() < .3:
            s = ('compute', s[1], s[2], 'custom', [inv_stmt(x) for x in reversed(s[1])])
        if s[0] in ('control', 'dagger', 'loop') and rng.random() < .08:
            body = s[-1]
            s = s[:-1] + ([],) if rng.random() < .5 else s[:-1] + (body,)
        return s


def make_unroller():
    from projectq.cengines import BasicEngine
    from projectq.meta import LoopTag

    class Unroller(BasicEngine):
        """Executes loop tags the way their documentation describes."""

        def __init__(self):
            super().__init__()
            self.run = []
            self.tag = None
            self.loops = 0

        def is_meta_tag_handler(self, tag):
            return tag == LoopTag

        def receive(self, cmds):
            for cmd in cmds:
                tags = [t for t in cmd.tags if isinstance(t, LoopTag)]
                outer = tags[-1] if tags else None
                if self.run and (outer is None or outer.id != self.tag.id):
                    self.emit()
                if outer is None:
                    self.send([cmd])
                else:
                    self.tag = outer
                    self.run.append(cmd)

        def emit(self):
            cmds, self.run = self.run, []
            for c in self.unroll(cmds):
                self.send([c])

        def unroll(self, cmds, level=0):
            out, i = [], 0
            while i < len(cmds):
                tags = [t for t in cmds[i].tags if isinstance(t, LoopTag)]
                if len(tags) <= level:
                    out.append(cmds[i])
                    i += 1
                    continue
                t = tags[-1 - level]
                j = i
                while j < len(cmds):
                    tj = [x for x in cmds[j].tags if isinstance(x, LoopTag)]
                    if len(tj) <= level or tj[-1 - level].id != t.id:
                        break
                    j += 1
                self.loops += 1
                inner = self.unroll(cmds[i:j], level + 1)
                for _ in range(t.num):
                    out += inner
                i = j
            return out
    return Unroller()


def case_nest(ctx, rng, idx):
    g = Gen(rng, max_qubits=rng.choice([3, 4, 5]), size=rng.choice([3, 6, 12]), highlevel=rng.random() < .2, math_gates=rng.random() < .2)
    body = g.program()
    if prog.count_stmts(body) < 60 and rng.random() < .8:    # make sure that there is something to nest
        s = g.meta_stmt(g.live, 0)
        if s:
            body.append(s)
    tagged = rng.random() < .35
    ctx.describe('%s%r' % ('loop tags handled ' if tagged else '', body))
    engines = [make_unroller()] if tagged else []
    eng, r, m, be = util.run_ref(ctx, body, engines, idx)
    if tagged:
        ctx.count('tagged_loops', engines[0].loops)
    f = prog.feature_set(body)
    ctx.sig(sorted(x for x in f if '>' in x or x in ('control', 'compute', 'loop', 'dagger')))
    ctx.count('meta_blocks', sum(x in ('control', 'compute', 'loop', 'dagger') for x in f))
    ctx.count('nested_pairs', sum('>' in x for x in f))
    for q in r.q.values():
        q.id = -1


def case_tags(ctx, rng, idx):
    """Compute and uncompute parts of a controlled block are not controlled by it; the action is. Tags mark the parts."""
    import projectq.ops as o
    from projectq.meta import Compute, ComputeTag, Control, CustomUncompute, Uncompute, UncomputeTag
    tap = Tap()
    eng = util.main_engine(RefBackend(seed=idx), [tap])
    qs = [eng.allocate_qubit()[0] for _ in range(4)]
    depth = rng.randint(1, 2)
    ctrls = qs[:depth]
    custom = rng.random() < .4
    n1, n2 = rng.randint(1, 4), rng.randint(1, 3)
    tap.cmds.clear()
    import contextlib
    st = [rng.choice('01') for _ in ctrls]
    with contextlib.ExitStack() as s:
        for c, v in zip(ctrls, st):
            s.enter_context(Control(eng, c, v))
        with Compute(eng):
            for i in range(n1):
                o.H | qs[2]
        for i in range(n2):
            o.Z | qs[3]
        if custom:
            with CustomUncompute(eng):
                for i in range(n1):
                    o.H | qs[2]
        else:
            Uncompute(eng)
        o.X | qs[3]
    ids = sorted(q.id for q in ctrls)
    want = ['c'] * n1 + ['a'] * n2 + ['u'] * n1 + ['a']
    got = []
    for cmd in tap.cmds:
        sizes, t, c, v = cmd_parts(cmd)
        tags = [type(x).__name__ for x in cmd.tags]
        if 'ComputeTag' in tags or 'UncomputeTag' in tags:
            got.append('c' if 'ComputeTag' in tags else 'u')
            if c:
                raise Violation('compute-controlled', 'command of a compute/uncompute section carries the controls of the enclosing block: %s' % cmd_repr(cmd))
            ctx.count('uncontrolled_compute_commands')
        else:
            got.append('a')
            if sorted(c) != ids or dict(zip(c, v)) != {q.id: int(x) for q, x in zip(ctrls, st)}:
                raise Violation('action-not-controlled', '%s, expected controls %s=%s' % (cmd_repr(cmd), ids, st))
    if got != want:
        raise Violation('section-order', 'sections received %s, expected %s' % (got, want))
    for q in qs:
        q.id = -1


class Boom(Exception):
    pass


def case_misuse(ctx, rng, idx):
    import projectq.ops as o
    from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
    from projectq.meta._exceptions import QubitManagementError
    from projectq.meta._compute import NoComputeSectionError
    what = rng.choice(['leak-loop', 'leak-dagger', 'leak-custom', 'double', 'nocompute', 'nocustom', 'dealloc-outer', 'negloop', 'typeloop', 'exchange-loop', 'exchange-dagger',
                       'leak-loop-tag', 'ctltuple', 'ctlstate', 'ctlint', 'ctlchar'])
    ctx.describe(what)
    tagged = what == 'leak-loop-tag' or rng.random() < .2
    be = RefBackend(seed=idx, execute=False)
    eng = util.main_engine(be, [make_unroller()] if tagged else [])
    qs = [eng.allocate_qubit()[0] for _ in range(3)]
    keep = []
    n = rng.choice([2, 3, 7])
    exp = QubitManagementError
    try:
        if what in ('leak-loop', 'leak-loop-tag'):
            with Loop(eng, n):
                o.H | qs[0]
                keep.append(eng.allocate_qubit())
                if rng.random() < .5:
                    b = eng.allocate_qubit()
                    del b
        elif what == 'leak-dagger':
            with Dagger(eng):
                keep.append(eng.allocate_qubit())
                o.H | keep[0]
        elif what == 'leak-custom':
            with Compute(eng):
                keep.append(eng.allocate_qubit())
            o.H | qs[0]
            with CustomUncompute(eng):
                o.H | qs[1]
        elif what == 'double':
            exp = NoComputeSectionError
            with Compute(eng):
                o.H | qs[0]
            Uncompute(eng)
            Uncompute(eng)
        elif what == 'nocompute':
            exp = NoComputeSectionError
            Uncompute(eng)
        elif what == 'nocustom':
            exp = NoComputeSectionError
            with CustomUncompute(eng):
                o.H | qs[0]
        elif what == 'dealloc-outer':
            how = rng.choice(['alone', 'leak', 'local', 'both'])
            with Compute(eng):
                if how in ('leak', 'both'):
                    keep.append(eng.allocate_qubit())
                    tagged = tagged or how == 'leak' or how == 'both'
                if how in ('local', 'both'):
                    b = eng.allocate_qubit()
                    del b
                eng.deallocate_qubit(qs[2])
            Uncompute(eng)
        elif what in ('exchange-loop', 'exchange-dagger'):
            # as many qubits leave the block as are released in it, but not the same ones
            exp = (QubitManagementError, KeyError)
            with (Loop(eng, n) if what == 'exchange-loop' else Dagger(eng)):
                keep.append(eng.allocate_qubit())
                o.H | keep[0]
                eng.deallocate_qubit(qs[2])
        elif what == 'negloop':
            exp = ValueError
            with Loop(eng, -n):
                o.H | qs[0]
        elif what == 'typeloop':
            exp = TypeError
            with Loop(eng, rng.choice([1.5, '3', 2.0, None])):
                o.H | qs[0]
        elif what == 'ctltuple':
            exp = TypeError
            with Control(eng, (qs[0], qs[1])):
                o.H | qs[2]
        elif what == 'ctlstate':
            exp = ValueError
            with Control(eng, qs[:2], rng.choice(['1', '101', '', '0'])):
                o.H | qs[2]
        elif what == 'ctlint':
            exp = ValueError
            with Control(eng, qs[:2], rng.choice([4, 7, -1, -4, 100])):
                o.H | qs[2]
        else:
            exp = ValueError
            with Control(eng, qs[:2], rng.choice(['12', '1x', '  ', '0 '])):
                o.H | qs[2]
    except exp:
        ctx.count('misuse_refused')
        ctx.sig(what, tagged)
    else:
        raise Violation('misuse-accepted:' + what, 'no %s' % (exp,))
    finally:
        if tagged or what == 'leak-custom':     # their allocation was sent: nothing in the program can release them any more
            for k in keep:
                k[0].id = -1
        keep.clear()
    if tagged:
        eng.flush()
    elif be.life.errors:
        raise Violation('after-error:lifecycle:' + what, be.life.errors[0])
    here = [q.id for q in qs if q.id != -1]
    if not set(here) <= be.life.live:
        raise Violation('after-error:released:' + what, 'the error released a qubit of the program: it holds %s, live are %s' % (here, sorted(be.life.live)))
    probe(ctx, eng, be, [q for q in qs if q.id != -1], rng, 'misuse:' + what)


def probe(ctx, eng, be, qs, rng, what):
    """Commands sent after the error arrive exactly as sent."""
    import projectq.ops as o
    be.log.clear()
    want = []
    for _ in range(rng.randint(1, 5)):
        g = rng.choice([o.X, o.H, o.Rz(.5), o.CNOT, o.Swap])
        if g is o.CNOT or g is o.Swap:
            a, b = rng.sample(qs, 2)
            g | (a, b)
            want.append('X|[[%d]] c[%d]=1' % (b.id, a.id) if g is o.CNOT else 'Swap|[[%d], [%d]]' % tuple(sorted((a.id, b.id))))
            del a, b
        else:
            a = rng.choice(qs)
            g | a
            want.append('%s|[[%d]]' % (g, a.id))
            del a
    eng.flush()
    want.append('flush|[[-1]]')
    got = [x.replace('Swap|[[%s' % '', 'Swap|[[') for x in be.log]
    ctx.count('probes')
    for q in qs:
        q.id = -1
    if got != want:
        raise Violation('after-error:' + what, 'after the error the program sent %s, the backend received %s' % (want, got))


def case_exception(ctx, rng, idx):
    """An exception leaves nested blocks: it reaches the caller, nothing of abandoned Dagger/Loop bodies is executed, and later commands are unaffected."""
    import projectq.ops as o
    from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop
    tagged = rng.random() < .3
    be = RefBackend(seed=idx, execute=False)
    eng = util.main_engine(be, [make_unroller()] if tagged else [])
    qs = [eng.allocate_qubit()[0] for _ in range(3)]
    ctl = eng.allocate_qubit()[0]
    eng.flush()
    be.log.clear()
    kinds = [rng.choice(['control', 'dagger', 'loop', 'compute', 'custom', 'action']) for _ in range(rng.randint(1, 4))]
    ctx.describe('%s tagged=%s' % (kinds, tagged))
    local = rng.random() < .3

    def nest(ks):
        if not ks:
            o.H | qs[0]
            if local:
                a = eng.allocate_qubit()
                o.CNOT | (qs[0], a)
                raise Boom('x')
            raise Boom('x')
        k = ks[0]
        if k == 'control':
            with Control(eng, ctl):
                nest(ks[1:])
        elif k == 'dagger':
            with Dagger(eng):
                nest(ks[1:])
        elif k == 'loop':
            with Loop(eng, 3):
                nest(ks[1:])
        elif k == 'compute':
            with Compute(eng):
                nest(ks[1:])
        elif k == 'custom':
            with Compute(eng):
                o.X | qs[1]
            with CustomUncompute(eng):
                nest(ks[1:])
        else:
            with Compute(eng):
                o.X | qs[1]
            nest(ks[1:])
    try:
        nest(kinds)
    except Boom as e:
        e.__traceback__ = None
    else:
        raise Violation('exception-lost', 'the exception raised inside %s did not reach the caller' % kinds)
    if 'action' in kinds[:1] or ('action' in kinds and 'control' not in kinds[:kinds.index('action')]):
        # a compute section was left without Uncompute: a following command may carry its tags, nothing else
        ctx.count('abandoned_compute')
    if 'dagger' in kinds or ('loop' in kinds and not tagged):
        i = min([kinds.index(k) for k in ('dagger', 'loop') if k in kinds and not (k == 'loop' and tagged)])
        sent = [x for x in be.log if 'H|' in x]
        if sent:
            raise Violation('abandoned-block-executed', 'block %s left by an exception was executed: %s' % (kinds, sent))
    ctx.sig(tuple(kinds), tagged, local)
    if tagged:
        eng.flush()     # the handler holds tagged commands back
    elif be.life.errors:
        raise Violation('after-error:lifecycle', be.life.errors[0])
    here = {q.id for q in qs} | {ctl.id}
    if not here <= be.life.live:
        raise Violation('after-error:released', 'the exception released a qubit of the program: it holds %s, live are %s' % (sorted(here), sorted(be.life.live)))
    ctl.id = -1
    probe(ctx, eng, be, qs, rng, '>'.join(kinds))


def case_lists(ctx, rng, idx):
    """The lists of qubits handed to blocks and gates belong to the program, which may go on using them."""
    import projectq.ops as o
    from projectq.cengines import CommandModifier, LocalOptimizer
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
    from projectq.types import Qureg
    be = RefBackend(seed=idx)
    # an engine that changes the commands it gets: every command has to be its own
    neg = rng.random() < .4

    def modify(cmd):
        if hasattr(cmd.gate, 'angle'):
            cmd.gate = type(cmd.gate)(-cmd.gate.angle)
        return cmd
    eng = util.main_engine(be, ([CommandModifier(modify)] if neg else []) + ([LocalOptimizer(20)] if rng.random() < .5 else []))
    first = eng.next_engine
    q = [eng.allocate_qubit()[0] for _ in range(5)]
    st = ref.State()
    for x in q:
        st.alloc(x.id)
        th = rng.uniform(.5, 2.5)
        o.Ry(th) | x
        st.apply(prog.spec_matrix(('Ry', -th if neg else th), [1]), [x.id])
    order = rng.sample(range(5), 5)
    nc = rng.randint(0, 3)
    ctl, rest = order[:nc], order[nc:]
    bits = [rng.randint(0, 1) for _ in ctl]
    mk = rng.choice([list, Qureg])
    lst = mk([q[i] for i in ctl])
    kinds = []

    def mutate(x):
        k = rng.choice(['pop', 'clear', 'append', 'reverse', 'none', 'insert', 'replace'])
        kinds.append(k)
        if k == 'pop' and len(x):
            x.pop(rng.randrange(len(x)))
        elif k == 'clear':
            del x[:]
        elif k == 'append':
            x.append(q[rest[0]])
        elif k == 'insert':
            x.insert(0, q[rest[-1]])
        elif k == 'reverse':
            x.reverse()
        elif k == 'replace' and len(x):
            x[0] = q[rest[0]]

    def body(controls, cbits, sign=1, times=1):
        seq = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .7:
                mutate(lst)
            t = rng.choice(rest)
            th = rng.uniform(.3, 3)
            g = rng.choice(['Rx', 'Rz', 'Ry'])
            arg = [q[t]]
            getattr(o, g)(th) | arg
            mutate(arg)
            seq.append((prog.spec_matrix((g, -th * sign if neg else th * sign), [1]), [q[t].id], controls, cbits))
            if len(rest) > 1 and rng.random() < .5:
                a, b = rng.sample(rest, 2)
                arg = [q[b]]
                o.CNOT | (q[a], arg)
                mutate(arg)
                seq.append((prog.spec_matrix(('X',), [1]), [q[b].id], controls + [q[a].id], cbits + [1]))
        for _ in range(times):
            for x in (seq if sign > 0 else seq[::-1]):
                st.apply(*x)
        return seq
    kind = rng.choice(['plain', 'dagger', 'loop', 'compute', 'inner'])
    ids = [q[i].id for i in ctl]
    state = ''.join(map(str, bits))
    if kind == 'dagger':
        with Control(eng, lst, state):
            with Dagger(eng):
                body(ids, bits, -1)
    elif kind == 'loop':
        with Control(eng, lst, state):
            with Loop(eng, 3):
                body(ids, bits, 1, 3)
    elif kind == 'inner':
        with Dagger(eng):
            with Control(eng, lst, state):
                body(ids, bits, -1)
    elif kind == 'compute':
        with Compute(eng):
            with Control(eng, lst, state):
                seq = body(ids, bits)
        mutate(lst)
        o.H | q[rest[0]]
        st.apply(prog.spec_matrix(('H',), [1]), [q[rest[0]].id])
        Uncompute(eng)
        for m, t, c, s in reversed(seq):
            st.apply(m.conj().T, t, c, s)
    else:
        with Control(eng, lst, state):
            body(ids, bits)
    body([], [])
    eng.flush()
    ctx.describe('%s with %d controls, list changes %s' % (kind, nc, kinds))
    if be.errors or be.life.errors:
        raise Violation('lists:stream', (be.errors + be.life.errors)[0])
    d = float(np.max(np.abs(be.state.reorder(st.names) - st.psi)))
    if d > 1e-9:
        raise Violation('lists:changed', 'changing the list of qubits afterwards (%s) changed what a %s block did by %.3g' % (kinds, kind, d))
    if eng.next_engine is not first:
        raise Violation('lists:engine-left', 'a %s was left behind' % type(eng.next_engine).__name__)
    ctx.count('lists_changed', len(kinds))
    ctx.sig('lists', kind, nc, mk.__name__, tuple(sorted(set(kinds))))
    for x in q:
        x.id = -1


JOBS = dict(
    lists=Job(case_lists, 400, 4000, shards=1, time_quick=30),
    nest=Job(case_nest, 6000, 80000, shards=5, time_quick=60),
    tags=Job(case_tags, 60, 600, shards=1, time_quick=20),
    misuse=Job(case_misuse, 250, 2000, shards=1, time_quick=30),
    exception=Job(case_exception, 250, 3000, shards=1, time_quick=30),
)
