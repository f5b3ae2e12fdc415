"""C10: the local optimizer never changes what a program computes."""
import math

import numpy as np

from vlib import prog, ref, util
from vlib.harness import Job, Violation
from vlib.pq import RefBackend, Tap, cmd_kind, cmd_repr

RULE = ('redundant programs (small pools of gates and their inverses repeated on few qubits, identities, opposite angles, permuted registers and '
        'controls, differing control values and tags) and random structured programs, through 1-2 optimizers of cache size 1-12, compared with '
        'the meaning of the program after every flush; non-trivial when the optimizer removed or merged commands (counted)')
ASSUMPTIONS = ['reference linear algebra up to 7 qubits', 'tolerance 2e-8 after up to ~100 merged gates']
MIN = dict(states_compared=800, commands_removed=3000)


def pool(rng, names, size):
    """A few gate statements with their inverses / partners."""
    g = prog.Gen(rng, highlevel=True, math_gates=True, max_controls=2)
    g.max_qubits = len(names)
    out = []
    for _ in range(size):
        st = g.gate_stmt(list(names))
        out.append(st)
        for _ in range(rng.randint(0, 2)):
            out.append(related(rng, st, names))
    for _ in range(rng.randint(0, 2)):   # identities
        q = rng.choice(names)
        idg = rng.choice([('Rx', 0.0), ('Ry', 4 * math.pi), ('Rz', -4 * math.pi), ('Rxx', 0.0), ('Rzz', 4 * math.pi), ('Rz', 2 * math.pi), ('Ph', 0.0),
                          ('R', 2 * math.pi), ('QubitOp', [], 1), ('QubitOp', [], 1j), ('AddC', 0), ('TimeEv', 0.0, [([[0, 'X']], 1.0)])])
        if idg[0] in ('Rxx', 'Rzz'):
            if len(names) < 2:
                continue
            regs = [[x] for x in rng.sample(names, 2)]
        elif idg[0] in ('QubitOp', 'AddC') and len(names) > 1:
            regs = [rng.sample(names, 2)]
        else:
            regs = [[q]]
        free = [n for n in names if n not in sum(regs, [])]
        if free and rng.random() < .4:
            out.append(('cgate', idg, [free[0]], [rng.randint(0, 1)], regs))
        else:
            out.append(('gate', idg, regs, 'tuple'))
    return out


INV = {'S': 'Sdag', 'Sdag': 'S', 'T': 'Tdag', 'Tdag': 'T', 'SqrtX': 'SqrtXdag', 'SqrtXdag': 'SqrtX', 'SqrtSwap': 'SqrtSwapdag',
       'SqrtSwapdag': 'SqrtSwap', 'QFT': 'QFTdag', 'QFTdag': 'QFT'}


def related(rng, st, names):
    """The inverse, a variation or a near miss of a gate statement."""
    st = list(st)
    spec = st[1]
    how = rng.choice(['inv', 'inv', 'same', 'angle', 'ctlflip', 'dropctl', 'permute', 'target', 'ctlorder', 'scale'])
    si = 4 if st[0] == 'cgate' else 2
    if how == 'inv':
        if spec[0] in INV:
            spec = (INV[spec[0]],) + tuple(spec[1:])
        elif spec[0] in prog.ROT1 + prog.ROT2:
            spec = (spec[0], -spec[1])
        elif spec[0] in ('UCRy', 'UCRz'):
            spec = (spec[0], [-a for a in spec[1]])
        elif spec[0] == 'TimeEv':
            spec = ('TimeEv', -spec[1], spec[2])
        elif spec[0] == 'QubitOp':
            spec = ('QubitOp', spec[1], 1 / spec[2])
        elif spec[0] == 'AddC':
            spec = ('AddC', -spec[1])
        elif spec[0] == 'AddCMod':
            spec = ('AddCMod', spec[2] - spec[1] if spec[1] else 0, spec[2])
    elif how == 'angle' and spec[0] in prog.ROT1 + prog.ROT2:
        spec = (spec[0], rng.choice([2 * math.pi - spec[1], 4 * math.pi - spec[1], -spec[1] + 2 * math.pi, prog.angle(rng)]))
    elif how == 'scale' and spec[0] == 'TimeEv':
        f = rng.choice([2.0, -1.0, .5])
        spec = ('TimeEv', spec[1], [(t, c * f) for t, c in spec[2]])
    elif how == 'ctlflip' and st[0] == 'cgate':
        c = list(st[3])
        c[rng.randrange(len(c))] ^= 1
        st[3] = c
    elif how == 'ctlorder' and st[0] == 'cgate':
        o = list(range(len(st[2])))
        rng.shuffle(o)
        st[2], st[3] = [st[2][i] for i in o], [st[3][i] for i in o]
    elif how == 'dropctl' and st[0] == 'cgate':
        return ('gate', spec, st[4], 'tuple')
    elif how == 'permute':
        flat = [q for r in st[si] for q in r]
        rng.shuffle(flat)
        regs, i = [], 0
        for r in st[si]:
            regs.append(flat[i:i + len(r)])
            i += len(r)
        st[si] = regs
    elif how == 'target':
        used = set(sum(st[si], []))
        if st[0] == 'cgate':
            used |= set(st[2])
        free = [n for n in names if n not in used]
        if free:
            regs = [list(r) for r in st[si]]
            regs[0][0] = free[0]
            st[si] = regs
    st[1] = spec
    return tuple(st)


def execute(ctx, rng, body, caches, seed, label):
    from projectq.cengines import LocalOptimizer
    be = RefBackend(seed=seed)
    tin = Tap()
    eng = util.main_engine(be, [tin] + [LocalOptimizer(c) for c in caches])
    r = prog.Runner(eng)
    m = prog.Machine(seed, lid=lambda n: r.ids[n])
    chunk = []
    flushes = 0
    for st in list(body) + [('flush',)]:
        chunk.append(st)
        if st[0] == 'flush':
            r.run(chunk)
            m.forced = {(l, o): v for l, o, p, v in be.outcomes}
            m.run(chunk)
            util.compare(ctx, eng, r, m, be, key='optimizer-changed-result')
            a, b = len(tin.cmds), len(be.log)
            flushes += 1
            chunk = []
    # allocations, deallocations and measurements: same per-qubit sequence in as out
    removed = len(tin.cmds) - len(be.log)
    ctx.count('commands_removed', max(0, removed))
    ctx.count('flush_points', flushes)
    per = {}
    for c in tin.cmds:
        k = cmd_kind(c)
        if k in ('alloc', 'dealloc', 'measure', 'allocdirty', 'flush'):
            per[k] = per.get(k, 0) + 1
    out = {}
    for line in be.log:
        k = line.split('|')[0]
        if k in ('alloc', 'dealloc', 'measure', 'allocdirty', 'flush'):
            out[k] = out.get(k, 0) + 1
    # (a qubit allocated and released with nothing left in between may vanish as a pair)
    gone = {k: per.get(k, 0) - out.get(k, 0) for k in set(per) | set(out)}
    ctx.check(gone.get('measure', 0) == 0 and gone.get('flush', 0) == 0 and gone.get('allocdirty', 0) == 0
              and gone.get('alloc', 0) == gone.get('dealloc', 0) >= 0, 'instructions-lost', 'entered %s, left %s' % (per, out), log=be.log[-60:])
    ctx.sig(label, tuple(caches), removed, len(be.log))
    for n in list(r.q):
        r.q[n].id = -1
    return tin, be


def redundant(ctx, rng, idx):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    names = ['q%d' % i for i in range(n)]
    p = pool(rng, names, rng.randint(1, 4))
    body = [('alloc', x) for x in names]
    for _ in range(rng.choice([4, 8, 15, 30])):
        r = rng.random()
        if r < .05:
            body.append(('flush',))
        elif r < .09:
            body.append(('measure', [rng.choice(names)]))
        elif r < .11:
            x = 'w%d' % len(body)
            body += [('alloc', x), ('gate', ('X',), [[x]], 'flat'), rng.choice(p), ('gate', ('X',), [[x]], 'flat'), ('dealloc', x, rng.choice(['del', 'explicit']))]
        elif r < .25 and len(body) > n:
            st = body[-1]
            if st[0] in ('gate', 'cgate'):
                body.append(related(rng, st, names))
        elif r < .32:
            k = [rng.choice(p) for _ in range(rng.randint(1, 3))]
            body.append(rng.choice([('dagger', k), ('compute', k, [rng.choice(p)], 'un'), ('loop', rng.randint(1, 3), k)]))
        else:
            body.append(rng.choice(p))
    caches = [rng.choice([1, 2, 3, 5, 12])] + ([rng.choice([1, 4])] if rng.random() < .2 else [])
    ctx.describe(dict(caches=caches, program=repr(body)[:3500]))
    execute(ctx, rng, body, caches, rng.randrange(1 << 30), 'redundant')
    if idx < 2:
        ctx.sample(dict(caches=caches, program=repr(body)[:300]))


def structured(ctx, rng, idx):
    g = prog.Gen(rng, max_qubits=rng.choice([3, 4, 6]), size=rng.choice([15, 30, 50]), highlevel=True, math_gates=True)
    body = g.program()
    caches = [rng.choice([1, 2, 3, 5, 10])]
    ctx.describe(dict(caches=caches, program=repr(body)[:3500]))
    execute(ctx, rng, body, caches, rng.randrange(1 << 30), 'structured')


def streams(ctx, rng, idx):
    """Unmergeable user-defined gates: exactly the same commands leave, in the same order on every qubit."""
    from projectq import MainEngine
    from projectq.cengines import LocalOptimizer
    from projectq.ops import BasicGate, Measure
    from projectq.meta import Control

    class Opaque(BasicGate):
        def __init__(self, n):
            super().__init__()
            self.n = n

        def __str__(self):
            return 'opaque%d' % self.n

        def __eq__(self, other):
            return isinstance(other, Opaque) and other.n == self.n

        def __hash__(self):
            return hash(self.n)
    be = RefBackend(seed=3, execute=False)
    tin = Tap()
    cache = rng.choice([1, 2, 3, 5, 8])
    eng = util.main_engine(be, [tin, LocalOptimizer(cache)])
    q = eng.allocate_qureg(rng.randint(2, 6))
    kinds = rng.choice([2, 5, 1000])
    desc = []
    for i in range(rng.choice([10, 40, 120])):
        r = rng.random()
        k = rng.randint(1, min(4, len(q)))
        qs = rng.sample(range(len(q)), k)
        nc = rng.randint(0, k - 1)
        if r < .05:
            eng.flush()
        elif r < .09:
            Measure | q[qs[0]]
        else:
            g = Opaque(rng.randrange(kinds) if kinds < 1000 else i)
            if nc:
                with Control(eng, [q[j] for j in qs[:nc]], ''.join(str(rng.randint(0, 1)) for _ in range(nc))):
                    g | [q[j] for j in qs[nc:]]
            else:
                g | tuple(q[j] for j in qs)
        desc.append((round(r, 2), qs, nc))
    ctx.describe(dict(cache=cache, steps=desc[:40]))
    eng.flush()

    def per_qubit(reprs):
        out = {}
        for text, ids in reprs:
            for i in ids:
                out.setdefault(i, []).append(text)
        return out
    a = per_qubit([(cmd_repr(c), [x.id for r in c.all_qubits for x in r]) for c in tin.cmds])
    b = per_qubit([(cmd_repr(c), [x.id for r in c.all_qubits for x in r]) for c in be_cmds(be)])
    for i in a:
        if i == -1:
            continue
        ctx.check(a[i] == b.get(i), 'stream-order', 'commands on qubit %d entered as %s... and left as %s...' % (i, a[i][:12], b.get(i, [])[:12]))
    ctx.check(len(tin.cmds) == len(be.log), 'stream-count', '%d commands entered, %d left' % (len(tin.cmds), len(be.log)))
    ctx.check(be.log[-1].startswith('flush'), 'flush-order', 'commands left after the flush: %s' % be.log[-3:])
    ctx.count('opaque_commands', len(be.log))
    ctx.sig('streams', cache, len(q), len(be.log))
    for x in q:
        x.id = -1


def be_cmds(be):
    return be.cmds


_orig = RefBackend._one


def _one(self, cmd):
    self.__dict__.setdefault('cmds', []).append(cmd)
    _orig(self, cmd)


RefBackend._one = _one

JOBS = {
    'redundant': Job(redundant, 1800, shards=5, time_quick=45),
    'structured': Job(structured, 250, shards=2, time_quick=45),
    'streams': Job(streams, 400, shards=1, time_quick=30),
}
