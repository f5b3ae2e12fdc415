"""C15: every qubit is allocated once, used only while live, and released once."""
import gc
import os
import subprocess
import sys

from vlib import prog, util
from vlib.harness import PY, REPO, VERIF, Job, Violation, base_env
from vlib.pq import Lifecycle, RefBackend, Tap, cmd_kind, cmd_parts, cmd_repr

RULE = ('random programs over all gate families and meta blocks with every way of ending the life of a qubit (del, explicit, __del__, reference cycles, '
        'registers going out of scope, clean or dirty, engine flush/deletion, process exit), through ten kinds of engine lists; an online lifecycle automaton '
        'watches the stream the program sends and the stream the backend receives; non-trivial by engine list, end of life and peak of live qubits')
ASSUMPTIONS = ['the reference counting of CPython ends the life of a dropped qubit', 'backend outcomes are chosen pseudo-randomly (no state simulated)']
MIN = dict(runs=500, commands_observed=40000, deallocations=5000, ends_by_exit=4, ends_by_error=6, dirty_pairs=100)


def low(cmd):
    n = sum(len(r) for r in cmd.qubits)
    name = type(cmd.gate).__name__
    if '0' in cmd.control_state:
        return False
    if name == 'XGate' and len(cmd.control_qubits) <= 2 and n == 1:
        return True
    return n == 1 and not cmd.control_qubits and name in ('XGate', 'HGate', 'TGate', 'SGate', 'Rz', 'Ry', 'Rx', 'ZGate', 'R', 'Ph', 'YGate', 'DaggeredGate')


def lists(rng, kind):
    from projectq.cengines import (AutoReplacer, CommandModifier, DecompositionRuleSet, GridMapper, InstructionFilter, LinearMapper, LocalOptimizer, ManualMapper,
                                   TagRemover)
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq.backends import CommandPrinter, ResourceCounter

    def rules():
        return DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])

    if kind == 'none':
        return []
    if kind == 'optimizer':
        return [LocalOptimizer(rng.choice([1, 3, 10]))]
    if kind == 'optimizers':
        return [LocalOptimizer(rng.choice([2, 5])), TagRemover(), LocalOptimizer(rng.choice([3, 20]))]
    if kind == 'observers':
        return [ResourceCounter(), CommandModifier(lambda c: c), TagRemover()]
    if kind == 'compile':
        return [AutoReplacer(rules()), TagRemover(), LocalOptimizer(rng.choice([1, 5, 10]))]
    if kind == 'compile2':
        return [LocalOptimizer(5), AutoReplacer(rules()), TagRemover(), LocalOptimizer(10)]
    if kind == 'restricted':
        from projectq.setups import restrictedgateset
        return restrictedgateset.get_engine_list()
    if kind == 'default':
        import projectq.setups.default
        return projectq.setups.default.get_engine_list()
    if kind == 'linear':
        return [LinearMapper(rng.randint(7, 9), cyclic=rng.random() < .5, storage=rng.choice([1, 4, 1000]))]
    if kind == 'grid':
        return [LocalOptimizer(4), GridMapper(2, 5, storage=rng.choice([2, 1000])), LocalOptimizer(4)]
    if kind == 'manual':
        return [ManualMapper(lambda x: 3 * x + 1), LocalOptimizer(3)]
    raise ValueError(kind)


KINDS = ['none', 'optimizer', 'optimizers', 'observers', 'compile', 'compile2', 'restricted', 'default', 'linear', 'grid', 'manual']


class Front(Lifecycle):
    """Lifecycle of what the program itself sends; every id is new."""

    def see(self, cmd, where=''):
        k = cmd_kind(cmd)
        if k in ('alloc', 'allocdirty') and cmd.qubits[0][0].id in self.ever:
            self.errors.append('qubit id %s given out twice' % cmd.qubits[0][0].id)
        super().see(cmd, where)


class Quiet:
    """Collects exceptions nobody sees (raised while a qubit or engine is being destroyed)."""

    def __enter__(self):
        self.seen = []
        self.old = sys.unraisablehook
        sys.unraisablehook = lambda a: self.seen.append('%s: %s' % (type(a.exc_value).__name__, a.exc_value))
        return self

    def __exit__(self, *a):
        sys.unraisablehook = self.old


def dirty_handler():
    from projectq.meta import DirtyQubitTag

    class DirtyTap(Tap):
        def is_meta_tag_handler(self, tag):
            return tag == DirtyQubitTag
    return DirtyTap


def case_run(ctx, rng, idx):
    from projectq.meta import DirtyQubitTag
    from projectq.ops import Measure
    kind = rng.choice(KINDS)
    end = rng.choice(['drop', 'flush', 'flush', 'del', 'explicit', 'twice'])
    small = kind in ('linear', 'grid', 'restricted')
    big = kind in ('compile', 'compile2')
    gates = 'all'
    kw = {}
    if kind in ('linear', 'grid'):
        gates = ['X', 'H', 'T', 'S', 'Rz', 'Swap', 'Rzz']
        kw = dict(max_controls=1, meta=False, multi=False, minq=2)
    g = prog.Gen(rng, max_qubits=rng.choice([4, 6, 8]) if not small else 5, size=rng.choice([10, 30, 60]) if not small else 15, gates=gates,
                 highlevel=kind not in ('linear', 'grid'), math_gates=kind not in ('linear', 'grid', 'restricted', 'default'), **kw)
    body = g.program()
    # gates which have no rules towards the low-level backends
    body = strip(body, ('U', 'Rxx', 'Ryy', 'Rzz') + (('AddQ',) if True else ())) if kind in ('compile', 'compile2', 'restricted', 'default') else body
    if kind in ('linear', 'grid'):
        from checks.c13 import too_wide
        body = [st for st in body if not too_wide([st], 0)]
    verbose = rng.random() < .5
    dirty_on = rng.random() < .5
    ctx.describe(dict(engines=kind, end=end, program=repr(body)[:3000]))
    avail = low if kind in ('compile', 'compile2', 'default') else None
    be = RefBackend(seed=idx, available=avail, execute=False)
    front, back = Front(), be.life
    tap = Tap(on_cmd=front.see, keep=False)
    counts = {}
    dirty = {}

    def see_dirty(cmd):
        k = cmd_kind(cmd)
        if k in ('alloc', 'dealloc'):
            dirty.setdefault(cmd.qubits[0][0].id, []).append((k, any(isinstance(t, DirtyQubitTag) for t in cmd.tags)))
    engines = [tap] + lists(rng, kind) + ([dirty_handler()(on_cmd=see_dirty, keep=False)] if dirty_on else [])
    from projectq import MainEngine
    with Quiet() as quiet:
        eng = MainEngine(backend=be, engine_list=engines, verbose=verbose)
        r = prog.Runner(eng)
        held = []
        extra = []
        nd = 0
        for st in body + [('flush',)]:
            if st[0] == 'dealloc':
                end_life(rng, r, st[1], held)
                nd += 1
            else:
                r.run([st])
            if rng.random() < .06 and kind not in ('linear', 'grid'):
                q = eng.allocate_qubit(dirty=True)
                if rng.random() < .5:
                    from projectq.ops import X, CNOT
                    if r.q:
                        CNOT | (q, next(iter(r.q.values())))
                        CNOT | (q, next(iter(r.q.values())))
                if rng.random() < .5:
                    extra.append(q)
                    del q
                else:
                    ctx.count('dirty_scope_ends')
                    del q
            if rng.random() < .05 and kind not in ('linear', 'grid'):
                reg = eng.allocate_qureg(rng.randint(2, 4))
                which = rng.random()
                if which < .3:
                    sub = reg[1:]
                    del reg
                    extra.append(sub)
                    del sub
                elif which < .6:
                    x = reg[0]
                    reg[:] = []
                    del x, reg
                else:
                    extra.append(reg)
                    del reg
            if st[0] == 'flush':
                active = sorted(q.id for q in eng.active_qubits if q.id != -1)
                mine = sorted([q.id for q in r.q.values()] + [q.id for reg in extra for q in reg])
                if active != mine:
                    raise Violation('active-qubits', 'the program holds qubits %s, the engine lists %s as active' % (mine, active), log=be.log[-40:])
                if sorted(front.live) != mine:
                    raise Violation('front-live', 'the program holds qubits %s, it has announced %s as live' % (mine, sorted(front.live)), log=be.log[-40:])
                ctx.count('flush_checks')
        nfl_front, log, nlive = front.flushes, be.log, len(front.live)
        if end == 'explicit':
            for q in list(r.q.values()):
                eng.deallocate_qubit(q)
            q = None
            extra.clear()
            eng.flush()
        elif end == 'drop':
            r.q.clear()
            extra.clear()
            eng.flush()
        elif end in ('flush', 'twice'):
            eng.flush(deallocate_qubits=True)
            if [q for q in r.q.values() if q.id != -1]:
                raise Violation('still-valid', 'references to released qubits stay valid')
            if end == 'twice':
                eng.flush(deallocate_qubits=True)
        else:
            r.eng = None
            names = [q for q in r.q.values()]
            be.main_engine = None if False else be.main_engine
            be_ref, tap_ref = be, tap
            del be, tap, engines
            r.q.clear()
            if rng.random() < .5:
                extra.clear()
            names.clear()
            held.clear()
            be_ref = tap_ref = None
            r = None
            extra = None
            del eng
            gc.collect()
            ctx.count('engines_deleted')
    for life, w in ((front, 'program'), (back, 'backend')):
        if life.errors:
            raise Violation('lifecycle:' + w, '%s stream: %s' % (w, life.errors[0]), log=log[-60:])
        if life.live:
            raise Violation('not-released:' + w, 'after the final flush (%s) qubits %s are still allocated in the %s stream' % (end, sorted(life.live), w), log=log[-60:])
    if quiet.seen:
        raise Violation('hidden-error', 'error while releasing a qubit or an engine: %s' % quiet.seen[:3], log=log[-40:])
    if not log[-1].startswith('flush') or back.flushes != front.flushes:
        raise Violation('flush-lost', '%d flushes sent, %d arrived, last command %s' % (front.flushes, back.flushes, log[-1]))
    if not front.ever <= back.ever and kind not in ('linear', 'grid', 'manual') and kind in ('none', 'observers'):
        raise Violation('allocation-lost', 'qubits %s never reached the backend' % sorted(front.ever - back.ever))
    for q, ev in dirty.items():
        marks = {d for k, d in ev}
        if len(marks) > 1:
            raise Violation('dirty-tags', 'qubit %s: %s (allocation and deallocation must agree on being dirty)' % (q, ev))
        if True in marks:
            ctx.count('dirty_pairs')
    ctx.count('runs')
    ctx.count('commands_observed', front.events + back.events)
    ctx.count('deallocations', len(back.dead))
    ctx.sig(kind, end, back.max_live, dirty_on, len(back.dead) // 4)
    if idx < 2:
        ctx.sample(dict(engines=kind, end=end, stream=log[:6]))


def strip(body, bad):
    out = []
    for st in body:
        if st[0] in ('gate', 'cgate') and (st[1][0] in bad or (st[0] == 'cgate' and st[1][0] in ('AddC', 'AddCMod', 'MulCMod', 'QubitOp'))):
            continue
        st = tuple(strip(x, bad) if isinstance(x, list) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str) else x for x in st)
        out.append(st)
    return out


def end_life(rng, r, name, held):
    q = r.q.pop(name)
    how = rng.choice(['del', 'explicit', 'explicit-held', 'call', 'cycle', 'function', 'list', 'copies'])
    eng = r.eng
    if how == 'del':
        del q
    elif how == 'explicit':
        eng.deallocate_qubit(q)
        del q
    elif how == 'explicit-held':
        eng.deallocate_qubit(q)
        held.append(q)
        try:
            eng.deallocate_qubit(q)
        except ValueError:
            pass
        else:
            raise Violation('double-release', 'a released qubit was released again without an error')
    elif how == 'call':
        q.__del__()
        held.append(q)
    elif how == 'cycle':
        x = [q]
        x.append(x)
        del q, x
        gc.collect()
    elif how == 'function':
        def f(z):
            y = [z, z]
            return len(y)
        f(q)
        del q
    elif how == 'list':
        from projectq.types import Qureg
        reg = Qureg([q])
        del q
        reg.pop()
        del reg
    else:
        import copy
        a, b = copy.copy(q), copy.deepcopy(q)
        if a is not q or b is not q:
            raise Violation('qubit-copied', 'copying a qubit makes a second owner')
        del a, q
        del b


EXIT = r'''
import sys, random
sys.path.insert(0, %(verif)r)
from vlib import boot
boot.boot(None)
from vlib import prog
from vlib.pq import RefBackend
from checks import c15
from projectq import MainEngine
rng = random.Random(%(seed)r)
class B(RefBackend):
    def receive(self, cmds):
        super().receive(cmds)
        sys.stderr.write('@@E ' + repr(self.life.errors) + '\n@@L ' + repr(sorted(self.life.live)) + '\n@@N %%d\n' %% self.life.events)
be = B(seed=1, available=c15.low if %(kind)r in ('compile', 'default') else None, execute=False)
eng = MainEngine(be, c15.lists(rng, %(kind)r))
g = prog.Gen(rng, max_qubits=6, size=20)
r = prog.Runner(eng)
body = c15.strip(g.program(), ('U', 'Rxx', 'Ryy', 'Rzz', 'AddQ'))
r.run(body)
held = eng.allocate_qureg(3)
sys.stderr.write('@@held %%d\n' %% len(held))
%(tail)s
'''


def case_exit(ctx, rng, idx):
    """The process ends without a final flush: everything is still released."""
    kind = rng.choice(['none', 'optimizer', 'compile', 'default'])
    tail = rng.choice(['', 'import sys; sys.exit(0)', 'x = [eng, held]; x.append(x)', 'def f():\n    global eng\n    q = eng.allocate_qubit()\n    del eng\nf()'])
    ctx.describe(dict(kind=kind, tail=tail))
    code = EXIT % dict(verif=VERIF, seed=idx, kind=kind, tail=tail)
    p = subprocess.run([PY, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=base_env(), timeout=80)
    err = [l for l in p.stderr.splitlines() if l.startswith('@@E ')]
    live = [l for l in p.stderr.splitlines() if l.startswith('@@L ')]
    if '@@held' not in p.stderr:
        raise RuntimeError('exit script failed: ' + p.stderr[-1500:])
    if not live or live[-1] != '@@L []':
        raise Violation('exit:not-released', 'at process exit %s' % (live[-1:] or 'nothing'), err=p.stderr[-800:])
    if err[-1] != '@@E []':
        raise Violation('exit:lifecycle', err[-1][:600])
    hidden = [l for l in p.stderr.splitlines() if 'Exception ignored' in l or 'Error' in l]
    if hidden:
        raise Violation('exit:hidden-error', hidden[0], err=p.stderr[-1500:])
    ctx.count('ends_by_exit')
    ctx.sig('exit', kind, tail)


CRASH = {
    'top': 'raise KeyError("the own error")',
    'function': 'def f():\n    a = eng.allocate_qureg(2)\n    raise KeyError("the own error")\nf()',
    'control': 'from projectq.meta import Control\nfrom projectq.ops import X\nwith Control(eng, held[0]):\n    X | held[1]\n    raise KeyError("the own error")',
    'compute': 'from projectq.meta import Compute\nfrom projectq.ops import X\nwith Compute(eng):\n    X | held[1]\n    b = eng.allocate_qubit()\n    raise KeyError("the own error")',
    'del': 'x = held.pop()\ndel x\nraise KeyError("the own error")',
    'cycle': 'x = [eng, held]\nx.append(x)\nraise KeyError("the own error")',
    'error': 'from projectq.ops import X\nfor q in eng.allocate_qureg(3):\n    X | q\nraise KeyError("the own error")',
}


def case_crash(ctx, rng, idx):
    """The process ends with an error of the user's own: that error is all that is reported."""
    kind = ['none', 'optimizer', 'compile', 'default'][idx % 4]
    what = rng.choice(sorted(CRASH))
    ctx.describe(dict(kind=kind, tail=what))
    code = EXIT % dict(verif=VERIF, seed=idx, kind=kind, tail='sys.stderr.write("@@crash\\n")\n' + CRASH[what])
    p = subprocess.run([PY, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=base_env(), timeout=80)
    if '@@crash' not in p.stderr:
        raise RuntimeError('crash script failed: ' + p.stderr[-1500:])
    lines = p.stderr.split('@@crash', 1)[1].splitlines()
    err = [l for l in p.stderr.splitlines() if l.startswith('@@E ')]
    if p.returncode != 1:
        raise Violation('crash:exit-status', 'exit status %d after an uncaught error' % p.returncode, err=p.stderr[-1500:])
    hidden = [l for l in lines if 'Exception ignored' in l or ('Error' in l and 'the own error' not in l and not l.startswith('@@'))]
    if hidden or sum("KeyError: 'the own error'" in l for l in lines) != 1:
        raise Violation('crash:other-error', 'an uncaught error of the program is reported with %s' % (hidden[:1] or 'nothing'), err=p.stderr[-1500:])
    if err and err[-1] != '@@E []':
        raise Violation('crash:lifecycle', err[-1][:600])
    ctx.count('ends_by_error')
    ctx.sig('crash', kind, what)


def case_scale(ctx, rng, idx):
    """Long histories: thousands of qubits come and go, ids stay unique and everything is released."""
    from projectq import MainEngine
    from projectq.cengines import BasicEngine, LocalOptimizer, TagRemover
    from projectq.ops import Allocate, Deallocate, X
    from projectq.types import WeakQubitRef
    live, seen, bad = set(), set(), []

    class Sink(BasicEngine):
        def is_available(self, cmd):
            return True

        def receive(self, cmds):
            for c in cmds:
                if c.gate == Allocate:
                    i = c.qubits[0][0].id
                    if i in seen:
                        bad.append('id %r is allocated again' % i)
                    seen.add(i)
                    live.add(i)
                elif c.gate == Deallocate:
                    i = c.qubits[0][0].id
                    if i not in live:
                        bad.append('id %r is deallocated though not live' % i)
                    live.discard(i)
                elif c.qubits[0][0].id >= 0:
                    for r in c.all_qubits:
                        for x in r:
                            if x.id not in live:
                                bad.append('id %r is used though not live' % x.id)
                ctx.count('commands_observed')
    lst = rng.choice([[], [TagRemover()], [LocalOptimizer(rng.choice([1, 4, 50]))]])
    eng = MainEngine(Sink(), lst, verbose=True)
    n = rng.choice([3000, 9000, 20000]) if idx % 2 else 70000
    opt = any(isinstance(e, LocalOptimizer) for e in lst)
    if opt:
        n = min(n, 9000)
    keep, made = [], 0
    long_lived = [eng.allocate_qubit() for _ in range(rng.randint(0, 5))]
    while made < n:
        k = rng.choice([1, 1, 2, 9])
        r = eng.allocate_qureg(k)
        made += k
        if rng.random() < .05:
            X | r[0]
        if rng.random() < .3:
            keep.append(r)
        if len(keep) > 60:
            del keep[rng.randrange(len(keep))]
        del r
    X | [x for r in keep[:1] for x in r][0:1]
    n_live = sum(len(r) for r in keep + long_lived)
    eng.flush()
    ctx.check(len(live) == n_live, 'scale:live', '%d qubits are live for the backend, the program holds %d' % (len(live), n_live))
    keep, long_lived = [keep[0]], []
    eng.flush(deallocate_qubits=True)
    ctx.check(not live, 'scale:not-released', '%d qubits are never released' % len(live))
    ctx.check(not bad, 'scale:lifecycle', '%s (%d problems) in a history of %d qubits' % (bad[:1], len(bad), made))
    ctx.count('deallocations', made)
    ctx.sig('scale', len(lst), n)


JOBS = dict(
    scale=Job(case_scale, 3, 12, shards=1, time_quick=60),
    run=Job(case_run, 1500, 25000, shards=7, time_quick=60),
    exit=Job(case_exit, 8, 80, shards=1, time_quick=60),
    crash=Job(case_crash, 12, 80, shards=1, time_quick=60),
)
