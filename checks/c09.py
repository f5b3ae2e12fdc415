"""C09: commands keep gate, qubits, control states and tags through every operation."""
import copy
import itertools
import re

import numpy as np

from vlib import prog, ref, util
from vlib.harness import Job, Skip, Violation
from vlib.pq import RefBackend, Tap, apply_cmd, cmd_kind, cmd_repr

RULE = ('random commands (any gate family, 1-3 registers, 0-4 controls given in any order with string/integer/enum states, tags) put through random '
        'chains of copy, inversion, merge, comparison, control addition, printing, re-ownership and transport through engines, next to a model '
        'of (operator, targets, control values, tags); non-trivial by gate family, control pattern and chain')
ASSUMPTIONS = ['meaning of a command = its action on a fixed random state of 6 qubits', 'tolerance 1e-9']
def printed_ids(text):
    """The qubits a printed command names (docstring of Qureg: Qureg[1, 3-5] are the qubits 1, 3, 4 and 5)"""
    out = []
    for r in re.findall(r'Qureg\[([^\]]*)\]', text.rsplit(' | ', 1)[-1]):
        ids = []
        for x in filter(None, r.split(', ')):
            m = re.fullmatch(r'(-?\d+)-(-?\d+)', x)
            ids.extend(range(int(m.group(1)), int(m.group(2)) + 1) if m else [int(x)])
        out.append(ids)
    return out


MIN = dict(meanings_compared=3000, equal_commands=300, merges=100)

NQ = 6


class TagA:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, TagA) and o.x == self.x

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'TagA(%s)' % self.x


PSI = {}


def base_state(ids):
    key = tuple(sorted(ids))
    if key not in PSI:
        PSI[key] = ref.random_unitary(np.random.default_rng(len(key) * 7 + 1), 1 << len(key))[0]
    st = ref.State()
    st.names = list(key)
    st.psi = PSI[key].copy()
    return st


def model_apply(st, m):
    mat, targets, ctl, _ = m
    cs = sorted(ctl)
    st.apply(mat, targets, cs, [ctl[c] for c in cs])


def meaning(cmd, ids):
    st = base_state(ids)
    try:
        apply_cmd(st, cmd)
    except ref.RefError as e:
        raise Violation('malformed-command', '%s: %s' % (cmd_repr(cmd), e))
    return st.psi


def expect(ctx, cmd, model, ids, tags, eng, what):
    st = base_state(ids)
    model_apply(st, model)
    got = meaning(cmd, ids)
    d = float(np.max(np.abs(got - st.psi)))
    ctx.count('meanings_compared')
    ctx.check(d < 1e-9, 'meaning:' + what.split(' ')[0], 'after %s the command %s acts differently by %.3g (controls should be %s)' % (what, cmd_repr(cmd), d, model[2]))
    ctx.check(list(cmd.tags) == list(tags), 'tags:' + what.split(' ')[0], 'after %s the tags are %s, not %s' % (what, cmd.tags, tags))
    ctx.check(cmd.engine is eng, 'engine', 'after %s the command belongs to another engine' % what)
    ctx.check(all(q.engine is eng for r in cmd.all_qubits for q in r), 'engine', 'after %s a qubit belongs to another engine' % what)
    ids_ = [q.id for q in cmd.control_qubits]
    ctx.check(ids_ == sorted(ids_), 'order', 'after %s the control qubits are not in canonical order' % what)
    ctx.check(len(cmd.control_state) == len(cmd.control_qubits), 'state-length', 'after %s there are %d control values for %d controls' %
              (what, len(cmd.control_state), len(cmd.control_qubits)))


def state_form(rng, bits):
    from projectq.ops import CtrlAll
    n = len(bits)
    forms = ['str', 'int']
    if all(bits):
        forms += ['one', 'default']
    if not any(bits):
        forms.append('zero')
    f = rng.choice(forms)
    if f == 'str':
        return ''.join(map(str, bits))
    if f == 'int':
        return sum(b << i for i, b in enumerate(bits))
    if f == 'one':
        return CtrlAll.One
    if f == 'zero':
        return CtrlAll.Zero
    return None


def rand_cmd(rng, ids, eng, spec=None, targets=None, sizes=None, ctl=None, tags=None):
    from projectq.ops import Command
    from projectq.types import WeakQubitRef
    if spec is None:
        g = prog.Gen(rng, highlevel=True, math_gates=True)
        gr = prog.Gen(rng, gates=prog.ROT1 + prog.ROT2)
        while True:
            spec, sizes = (gr if rng.random() < .35 else g).spec(3)
            if spec[0] != 'Flip' and sum(sizes) <= 4:
                break
    if targets is None:
        targets = rng.sample(ids, sum(sizes))
    if ctl is None:
        free = [i for i in ids if i not in targets]
        cs = rng.sample(free, rng.randint(0, min(3, len(free) - 1)))
        ctl = {c: rng.randint(0, 1) for c in cs}
    if tags is None:
        tags = [TagA(rng.randrange(2)) for _ in range(rng.randint(0, 2))]
    regs, i = [], 0
    for s in sizes:
        regs.append([WeakQubitRef(None if rng.random() < .5 else eng, q) for q in targets[i:i + s]])
        i += s
    cs = list(ctl)
    rng.shuffle(cs)
    f = state_form(rng, [ctl[c] for c in cs])
    kw = {} if f is None else {'control_state': f}
    if not cs:
        kw = {}
    cmd = Command(eng, prog.spec_gate(spec), tuple(regs), controls=[WeakQubitRef(eng, c) for c in cs], tags=list(tags), **kw)
    mat = prog.spec_matrix(spec, sizes)
    return cmd, [mat, list(targets), dict(ctl), None], tags, spec, sizes


def chain(ctx, rng, idx):
    from projectq.ops import CtrlAll, IncompatibleControlState, NotInvertible, NotMergeable
    from projectq.types import WeakQubitRef
    ids = rng.sample(range(12), NQ)
    engs = ['engine-a', 'engine-b']
    eng = engs[0]
    cmd, model, tags, spec, sizes = rand_cmd(rng, ids, eng)
    tags = list(tags)
    steps = ['new']
    ctx.describe(dict(spec=repr(spec)[:200], controls=model[2]))
    expect(ctx, cmd, model, ids, tags, eng, 'creation')
    keep = []
    for _ in range(rng.randint(2, 8)):
        op = rng.choice(['copy', 'inv', 'merge', 'merge', 'addctl', 'addctl', 'print', 'eng', 'eq', 'setstate', 'tag', 'conflict', 'identity', 'swapcmp'])
        steps.append(op)
        snapshot = (cmd_repr(cmd), list(cmd.tags), cmd.control_state)
        if op == 'copy':
            c2 = copy.deepcopy(cmd)
            if 'TimeEv' != spec[0]:
                ctx.check(c2 == cmd, 'copy-not-equal', 'a deep copy of %s is not equal to it' % cmd_repr(cmd))
            expect(ctx, c2, model, ids, tags, eng, 'copy')
            # independent: changing the copy must not change the original
            if hasattr(c2.gate, 'angle') and rng.random() < .3:
                # the copy owns its gate: giving it another parameter must leave the original alone
                c3 = copy.deepcopy(cmd)
                c3.gate.angle += 1.
                c3.tags.append(TagA(11))
                c3.tags[0].x = 12
                expect(ctx, cmd, model, ids, tags, eng, 'changing-a-copy')
                ctx.count('independent_copies')
            keep.append((cmd, [model[0], list(model[1]), dict(model[2]), None], [TagA(t.x) for t in tags], eng))
            cmd = c2
            tags = list(c2.tags)
        elif op == 'inv':
            try:
                c2 = cmd.get_inverse()
            except NotInvertible:
                continue
            m2 = [np.linalg.inv(model[0]), list(model[1]), dict(model[2]), None]
            expect(ctx, c2, m2, ids, tags, eng, 'inverse')
            expect(ctx, cmd, model, ids, tags, eng, 'being-inverted')
            if rng.random() < .5:
                keep.append((cmd, model, list(tags), eng))
                cmd, model = c2, m2
                model = [model[0], list(model[1]), dict(model[2]), None]
        elif op == 'merge':
            # another command that may or may not be mergeable
            ctl2, tg2, tags2, sp2, sz2 = dict(model[2]), list(model[1]), list(tags), spec, sizes
            how = rng.choice(['same', 'angle', 'angle', 'angle', 'ctlflip', 'ctlmore', 'tags', 'tags', 'targets', 'gate', 'engine'])
            e2 = eng
            if how == 'angle' and len(spec) == 2 and isinstance(spec[1], float):
                sp2 = (spec[0], prog.angle(rng))
            elif how == 'ctlflip' and ctl2:
                c = rng.choice(list(ctl2))
                ctl2[c] ^= 1
            elif how == 'ctlmore':
                free = [i for i in ids if i not in tg2 and i not in ctl2]
                if free:
                    ctl2[rng.choice(free)] = 1
            elif how == 'tags':
                # more, fewer, other or reordered tags: each of them is another command
                how2 = rng.choice(['more', 'fewer', 'other', 'order'])
                if how2 == 'fewer' and tags2:
                    tags2.pop(rng.randrange(len(tags2)))
                elif how2 == 'other' and tags2:
                    k = rng.randrange(len(tags2))
                    tags2[k] = TagA(tags2[k].x + 1)
                elif how2 == 'order' and len(set(t.x for t in tags2)) > 1:
                    tags2.reverse()
                else:
                    tags2 = tags2 + [TagA(7)]
                if len(spec) == 2 and isinstance(spec[1], float) and rng.random() < .5:
                    sp2 = (spec[0], prog.angle(rng))
            elif how == 'targets':
                free = [i for i in ids if i not in tg2 and i not in ctl2]
                if free:
                    tg2[rng.randrange(len(tg2))] = rng.choice(free)
            elif how == 'engine':
                e2 = engs[1 - engs.index(eng)]
            elif how == 'gate':
                sp2, sz2 = None, None
                tg2 = None
            if how == 'gate':
                other, om, ot, _, _ = rand_cmd(rng, ids, e2, None, None, None, None, list(tags2))
            else:
                other, om, ot, _, _ = rand_cmd(rng, ids, e2, sp2, tg2, sz2, ctl2, list(tags2))
            o_before = cmd_repr(other)
            try:
                c2 = cmd.get_merged(other)
            except NotMergeable:
                ctx.count('not_mergeable')
            else:
                ctx.count('merges')
                st = base_state(ids)
                model_apply(st, model)
                model_apply(st, om)
                d = float(np.max(np.abs(meaning(c2, ids) - st.psi)))
                ctx.check(d < 1e-10, 'merge', 'merging %s with %s gives %s, off by %.3g' % (cmd_repr(cmd), o_before, cmd_repr(c2), d))
                ctx.check(list(c2.tags) == list(tags) == list(ot), 'merge-tags', 'merged command has tags %s from %s and %s' % (c2.tags, tags, ot))
                ctx.check(c2.engine is eng and e2 is eng, 'merge-engine', 'commands of different engines were merged')
            ctx.check(cmd_repr(other) == o_before, 'merge-modifies', 'the other command was changed by merging')
            expect(ctx, cmd, model, ids, tags, eng, 'being-merged')
        elif op == 'addctl':
            free = [i for i in ids if i not in model[1]]
            k = rng.randint(1, min(2, len(free))) if free else 0
            if not k:
                continue
            add = rng.sample(free, k)
            vals = [model[2].get(a, rng.randint(0, 1)) for a in add]   # repeating a control with the same value is allowed
            f = state_form(rng, vals)
            if len(set(model[2]) | set(add)) > 4:
                continue
            model = [model[0], model[1], dict(model[2]), None]
            if f is None:
                cmd.add_control_qubits([WeakQubitRef(eng, a) for a in add])
            else:
                cmd.add_control_qubits([WeakQubitRef(eng, a) for a in add], f)
            for a, v in zip(add, vals):
                model[2][a] = v
            expect(ctx, cmd, model, ids, tags, eng, 'adding-controls %s=%s' % (add, vals))
        elif op == 'conflict':
            if not model[2]:
                continue
            c = rng.choice(list(model[2]))
            c2 = copy.deepcopy(cmd)
            try:
                c2.add_control_qubits([WeakQubitRef(eng, c)], str(1 - model[2][c]))
            except IncompatibleControlState:
                ctx.count('conflicts_rejected')
            else:
                raise Violation('conflict-accepted', 'control %d was given both values in %s' % (c, cmd_repr(c2)))
            for bad in ('2', '', '01010', 'x'):
                c2 = copy.deepcopy(cmd)
                free = [i for i in ids if i not in model[1] and i not in model[2]]
                if not free:
                    break
                try:
                    c2.add_control_qubits([WeakQubitRef(eng, free[0])], bad)
                except (ValueError, TypeError):
                    ctx.count('conflicts_rejected')
                else:
                    raise Violation('malformed-state-accepted', 'control state %r was accepted for one qubit' % bad)
        elif op == 'print':
            str(cmd), repr(cmd), cmd.to_string(True), cmd.to_string(symbols=False)
            ctx.check((cmd_repr(cmd), list(cmd.tags), cmd.control_state) == snapshot, 'print-modifies', 'printing changed the command')
            ctx.check(str(cmd).count('C') >= len(cmd.control_qubits), 'print', 'controls missing in %s' % cmd)
            shown = printed_ids(rng.choice([str(cmd), repr(cmd), cmd.to_string(True), cmd.to_string(symbols=False)]) if str(cmd) == repr(cmd) else str(cmd))
            want = [[x.id for x in r] for r in ((cmd.control_qubits,) if cmd.control_qubits else ()) + tuple(cmd.qubits)]
            ctx.check(shown == want, 'print', '%s shows the qubits %s of %s' % (cmd, shown, want))
        elif op == 'eng':
            eng = rng.choice(engs)
            cmd.engine = eng
            expect(ctx, cmd, model, ids, tags, eng, 'ownership')
        elif op == 'tag':
            t = TagA(rng.randrange(3))
            cmd.tags.append(t)
            tags = tags + [t]
        elif op == 'setstate':
            if not cmd.control_qubits:
                continue
            cs = [q.id for q in cmd.control_qubits]
            if len(set(cs)) != len(cs):
                continue
            vals = [rng.randint(0, 1) for _ in cs]
            f = state_form(rng, vals)
            if f is None:
                f = CtrlAll.One
            cmd.control_state = f
            model = [model[0], model[1], dict(zip(cs, vals)), None]
            expect(ctx, cmd, model, ids, tags, eng, 'setting-control-state')
        elif op == 'identity':
            if cmd.is_identity():
                d = float(np.max(np.abs(model[0] - np.eye(len(model[0])))))
                ctx.check(d < 1e-9, 'is-identity', '%s is reported as identity' % cmd_repr(cmd))
        elif op == 'eq':
            variants(ctx, rng, ids, eng, cmd, model, tags, spec, sizes)
    for c, m, t, e in keep:
        # the commands kept aside must be unaffected by what happened to their copies
        c_eng = c.engine
        expect(ctx, c, m, ids, t, c_eng, 'operations-on-its-copy')
    ctx.sig(spec[0], tuple(sorted(model[2].values())), tuple(sorted(set(steps))))
    if idx < 2:
        ctx.sample(dict(spec=repr(spec)[:80], steps=steps))


def variants(ctx, rng, ids, eng, cmd, model, tags, spec, sizes):
    """Equality: same meaning built differently is equal; any equal pair means the same."""
    if 'inv' in str(type(cmd.gate)):
        return
    from projectq.ops import Command
    from projectq.types import WeakQubitRef

    def build(gate, regs, ctl, tg, e):
        cs = list(ctl)
        rng.shuffle(cs)
        return Command(e, gate, tuple([WeakQubitRef(e, q) for q in r] for r in regs), controls=[WeakQubitRef(e, c) for c in cs], tags=list(tg),
                       control_state=''.join(str(ctl[c]) for c in cs))
    regs = [[q.id for q in r] for r in cmd.qubits]
    ctl = dict(model[2])
    if len(cmd.control_qubits) == len(ctl) and spec[0] != 'TimeEv':
        same = build(copy.deepcopy(cmd.gate), regs, ctl, tags, eng)
        ctx.check(cmd == same and not cmd != same, 'equality', '%s and the same command with controls given in another order are different' % cmd_repr(cmd))
        ctx.count('equal_commands')
    kind = rng.choice(['ctl', 'targets', 'tags', 'engine', 'angle', 'regs', 'ctlq'])
    r2, c2, t2, e2, g2 = [list(r) for r in regs], dict(ctl), list(tags), eng, copy.deepcopy(cmd.gate)
    if kind == 'ctl' and c2:
        k = rng.choice(list(c2))
        c2[k] ^= 1
    elif kind == 'targets':
        flat = [q for r in r2 for q in r]
        rng.shuffle(flat)
        i = 0
        for r in r2:
            for j in range(len(r)):
                r[j] = flat[i]
                i += 1
    elif kind == 'tags':
        t2 = list(reversed(t2)) + ([TagA(9)] if rng.random() < .5 else [])
    elif kind == 'engine':
        e2 = 'engine-c'
    elif kind == 'ctlq' and c2:
        free = [i for i in ids if i not in c2 and i not in model[1]]
        if free:
            k = rng.choice(list(c2))
            c2[free[0]] = c2.pop(k)
    elif kind == 'angle' and hasattr(g2, 'angle'):
        g2.angle = g2.angle + rng.choice([1e-3, 1.0])
    elif kind == 'regs' and sum(len(r) for r in r2) == 2 and len(r2) == 2:
        pass
    other = build(g2, r2, c2, t2, e2)
    if cmd == other:
        a, b = meaning(cmd, ids), meaning(other, ids)
        d = float(np.max(np.abs(a - b)))
        ctx.check(d < 1e-9, 'equality', '%s == %s although they act differently (%.3g)' % (cmd_repr(cmd), cmd_repr(other), d))
        ctx.check(list(cmd.tags) == list(other.tags) and cmd.engine is other.engine, 'equality', 'commands with different tags or engines are equal')
        ctx.count('equal_commands')
    else:
        ctx.check(bool(cmd != other), 'equality', '== and != agree')
        if type(cmd.gate).__name__ in ('SwapGate', 'SqrtSwapGate') and kind == 'targets':
            raise Violation('interchangeable', '%s and %s are different although the qubits are interchangeable' % (cmd_repr(cmd), cmd_repr(other)))


def transport(ctx, rng, idx):
    """Commands passing through compiler engines arrive meaning the same."""
    from projectq import MainEngine
    from projectq.cengines import (CommandModifier, CompareEngine, DummyEngine, ForwarderEngine, InstructionFilter, LocalOptimizer, TagRemover)
    from projectq.backends import CommandPrinter, ResourceCounter
    from projectq.meta import Control
    els = {'mod': lambda: CommandModifier(lambda c: c), 'filter': lambda: InstructionFilter(lambda e, c: True), 'tag': lambda: TagRemover(),
           'count': lambda: ResourceCounter(), 'dummy': lambda: DummyEngine(save_commands=True), 'cmp': lambda: CompareEngine(),
           'print': lambda: CommandPrinter(accept_input=False), 'opt': lambda: LocalOptimizer(rng.choice([1, 5]))}
    names = rng.sample(list(els), rng.randint(1, 4))
    ctx.describe(names)
    be = RefBackend(seed=1)
    tin, tout = Tap(), Tap()
    eng = MainEngine(backend=be, engine_list=[tin] + [els[n]() for n in names] + [tout], verbose=True)
    q = eng.allocate_qureg(5)
    g = prog.Gen(rng, highlevel=True, max_controls=2)
    st = ref.State()
    for x in q:
        st.alloc(x.id)
    for _ in range(rng.randint(1, 6)):
        spec, sizes = g.spec(3)
        t = rng.sample(range(5), sum(sizes))
        free = [i for i in range(5) if i not in t]
        cs = rng.sample(free, rng.randint(0, min(2, len(free))))
        bits = [rng.randint(0, 1) for _ in cs]
        regs, i = [], 0
        for s in sizes:
            regs.append([q[k] for k in t[i:i + s]])
            i += s
        f = state_form(rng, bits) if cs else None
        gate = prog.spec_gate(spec)
        ctlarg = [q[c] for c in cs]
        if len(cs) == 2 and rng.random() < .5:   # nested
            with Control(eng, ctlarg[0], str(bits[0])):
                with Control(eng, [ctlarg[1]], str(bits[1])):
                    gate | tuple(regs)
        elif f is None:
            with Control(eng, ctlarg):
                gate | tuple(regs)
        else:
            with Control(eng, ctlarg, f):
                gate | tuple(regs)
        st.apply(prog.spec_matrix(spec, sizes), [q[k].id for k in t], [q[c].id for c in cs], bits)
    eng.flush()
    if be.errors or be.life.errors:
        raise Violation('transport', (be.errors + be.life.errors)[0])
    d = float(np.linalg.norm(be.state.reorder(st.names) - st.psi))
    ctx.check(d < 1e-9, 'transport', 'the commands arriving behind %s act differently by %.3g' % (names, d), log=be.log[-20:])
    if 'opt' not in names:
        a, b = [cmd_repr(c) for c in tin.cmds], [cmd_repr(c) for c in tout.cmds]
        ctx.check(a == b, 'transport', 'the command list changed behind %s: %s -> %s' % (names, a[-5:], b[-5:]))
    ctx.count('transported', len(tout.cmds))
    ctx.count('meanings_compared')
    ctx.sig('transport', tuple(sorted(names)), len(tin.cmds))
    for x in q:
        x.id = -1


def states(ctx, rng, idx):
    """canonical control states and constructor forms agree"""
    from projectq.meta import canonical_ctrl_state, get_control_count, has_negative_control
    from projectq.ops import CtrlAll
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 17, 33, 70])
    bits = [rng.randint(0, 1) for _ in range(n)]
    want = ''.join(map(str, bits))
    ctx.check(canonical_ctrl_state(sum(b << i for i, b in enumerate(bits)), n) == want, 'canonical', 'integer control state for %s' % want)
    ctx.check(canonical_ctrl_state(want, n) == want, 'canonical', 'string control state %s' % want)
    ctx.check(canonical_ctrl_state(CtrlAll.One, n) == '1' * n and canonical_ctrl_state(CtrlAll.Zero, n) == '0' * n, 'canonical', 'CtrlAll for %d' % n)
    for bad in [1 << n, -1, want + '1', want[:-1] + 'a', 1.0, None, [1] * n]:
        if n == 0:
            break
        try:
            r = canonical_ctrl_state(bad, n)
        except (ValueError, TypeError):
            ctx.count('rejected')
        else:
            raise Violation('malformed-state-accepted', 'control state %r for %d qubits gives %r' % (bad, n, r))
    ids = list(range(8))
    cmd, model, tags, spec, sizes = rand_cmd(rng, ids, 'e')
    ctx.check(get_control_count(cmd) == len(model[2]), 'count', 'control count')
    ctx.check(has_negative_control(cmd) == (0 in model[2].values()), 'negative', 'has_negative_control(%s) is wrong' % cmd_repr(cmd))
    ctx.sig('states', n, want)


def decomposed(ctx, rng, idx):
    """Replaced commands carry the tags of the command they replace, and only those (besides the ones of meta blocks in the rule)."""
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq.cengines import AutoReplacer, BasicEngine, CommandModifier, DecompositionRuleSet, InstructionFilter
    from projectq.meta import ComputeTag, LoopTag, UncomputeTag
    from .c12 import SETS1, declared, gen_body
    one = rng.choice(SETS1)
    body = gen_body(rng, max_qubits=4, size=rng.choice([8, 15]), highlevel=True, math_gates=rng.random() < .5, max_controls=2, multi=False, banned=prog.ROT2)
    ctx.describe(dict(one=one, program=repr(body)[:3000]))
    pred = declared(one, ('CNOT',))
    rs = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
    sources, arrived = [], []

    def mark(cmd):
        cmd.tags += [TagA(rng.randint(0, 3)) for _ in range(rng.choice([0, 0, 1, 2]))] + [TagA(1000 + len(sources))] + [TagA(rng.randint(0, 3)) for _ in range(rng.choice([0, 1, 2]))]
        sources.append((list(cmd.tags), cmd_repr(cmd)))
        return cmd

    class Sink(BasicEngine):
        """Looks at the tags, then adds one of its own in place."""

        def receive(self, cmds):
            for c in cmds:
                arrived.append((list(c.tags), cmd_repr(c)))
                c.tags += [TagA('downstream')]
                own = [c.engine] + [q.engine for reg in c.all_qubits for q in reg]
                strange.extend((len(arrived) - 1, str(type(o))) for o in own if o is not self.main_engine)
            self.send(cmds)

    class Batch(BasicEngine):
        """Collects commands up to the next flush."""

        def receive(self, cmds):
            for c in cmds:
                held.append(c)
                if cmd_kind(c) == 'flush' or rng.random() < .02:
                    self.send(list(held))
                    del held[:]
    strange, held = [], []
    be = RefBackend(seed=rng.randrange(1 << 30))
    engines = [CommandModifier(mark)] + ([Batch()] if rng.random() < .4 else []) + [AutoReplacer(rs), InstructionFilter(lambda self, cmd: cmd_kind(cmd) not in ('gate', 'barrier') or pred(cmd)), Sink()]
    try:
        eng, r, m, be = util.run_ref(ctx, body, engines, 1, backend=be, key='decomposed')
    except ValueError as e:
        if 'must be a single qubit' in str(e):     # documented: the adders take at most one control qubit
            raise Skip from None
        raise
    last, many = -1, 0
    n_in, n_out = [sum(x[1].startswith('flush') for x in l) for l in (sources, arrived)]
    ctx.check(n_in == n_out, 'decomposed:flush', '%d flush commands were sent, %d arrive' % (n_in, n_out))
    ctx.count('flushes', n_in)
    for k, (tags, what) in enumerate(arrived):
        src = [t.x - 1000 for t in tags if isinstance(t, TagA) and t.x != 'downstream' and t.x >= 1000]
        ctx.check(len(src) == 1, 'decomposed:tags', '%s arrives with the tags of %d commands: %s' % (what, len(src), tags))
        want, orig = sources[src[0]]
        ctx.check(tags[:len(want)] == want, 'decomposed:tags', '%s, a part of %s with tags %s, arrives with tags %s' % (what, orig, want, tags))
        ctx.check(all(isinstance(t, (ComputeTag, UncomputeTag, LoopTag)) for t in tags[len(want):]), 'decomposed:tags',
                  '%s, a part of %s with tags %s, arrives with tags %s' % (what, orig, want, tags))
        odd = [o for i, o in strange if i == k]
        ctx.check(what == orig or not odd, 'decomposed:owner', '%s, a part of %s, does not belong to the main engine, but to %s' % (what, orig, odd))
        ctx.check(src[0] >= last, 'decomposed:order', '%s, a part of %s, arrives after parts of later commands' % (what, orig))
        many += src[0] == last
        last = src[0]
        ctx.count('decomposed_commands')
    ctx.sig('decomposed', one, len(sources), many)
    for n in list(r.q):
        r.q[n].id = -1


JOBS = {
    'chain': Job(chain, 2500, shards=5, time_quick=40),
    'transport': Job(transport, 400, shards=2, time_quick=40),
    'states': Job(states, 300, shards=1, time_quick=20),
    'decomposed': Job(decomposed, 80, shards=1, time_quick=40),
}
