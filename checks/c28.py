"""C28: compiler instances are independent and deterministic."""
import copy
import gc
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from vlib import prog
from vlib.harness import PY, VERIF, Job, Violation, base_env
from vlib.pq import Tap, cmd_kind, cmd_repr
from checks.c15 import low, strip

RULE = ('every program runs alone in a fork of a process which has never run one; then two to four programs run statement by statement in random interleavings (also '
        'inside open Compute, Control, Dagger and Loop blocks of each other) in one process, after and among unrelated, abandoned and failing '
        'programs, with shared rule sets and random garbage collections; streams, outcomes and final states have to agree with the isolated runs. '
        'The same programs run in processes with different hash seeds. The global random states and all arguments are watched')
ASSUMPTIONS = ['seeded simulators; backends that draw from the program\'s random generator by design are outside', 'states compared to 1e-9']
MIN = dict(programs=250, commands=10000, switches=800, noise=80, states=150, arguments=300)

KINDS = ['none', 'optimizer', 'optimizers', 'observers', 'compile', 'compile2', 'restricted', 'default', 'linear', 'grid', 'manual', 'trapped', 'shared', 'setup_linear', 'setup_grid']


class Steps(prog.Runner):
    """A runner which yields between any two statements, also inside of blocks."""

    def steps(self, body):
        from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
        eng = self.eng
        for st in body:
            k = st[0]
            if k == 'control':
                with Control(eng, [self.q[n] for n in st[1]], ''.join(map(str, st[2]))):
                    yield
                    yield from self.steps(st[3])
            elif k == 'compute':
                before = set(self.q)
                with Compute(eng):
                    yield
                    yield from self.steps(st[1])
                yield from self.steps(st[2])
                if st[3] == 'custom':
                    with CustomUncompute(eng):
                        yield
                        yield from self.steps(st[4])
                else:
                    Uncompute(eng)
                for n in set(self.q) - before:
                    self.q.pop(n)
            elif k == 'loop':
                with Loop(eng, st[1]):
                    yield
                    yield from self.steps(st[2])
            elif k == 'dagger':
                with Dagger(eng):
                    yield
                    yield from self.steps(st[1])
            elif k == 'if':
                if self.values.get(st[1]) == 1:
                    yield from self.steps(st[2])
            else:
                self.run([st])
            yield


def engines(rng, kind, shared=None):
    from checks import c15
    if kind == 'trapped':
        from projectq.setups import trapped_ion_decomposer
        return trapped_ion_decomposer.get_engine_list()
    if kind == 'setup_linear':
        from projectq.setups import linear
        return linear.get_engine_list(num_qubits=7, cyclic=rng.random() < .5, two_qubit_gates='any')
    if kind == 'setup_grid':
        from projectq.setups import grid
        return grid.get_engine_list(num_rows=2, num_columns=4, two_qubit_gates='any')
    if kind == 'shared':
        from projectq.cengines import AutoReplacer, LocalOptimizer, TagRemover
        own = rule_set(rng)
        rules = shared if shared is not None else own
        return [AutoReplacer(rules), TagRemover(), LocalOptimizer(rng.choice([1, 5])), AutoReplacer(rules), LocalOptimizer(3)]
    return c15.lists(rng, kind)


def rule_set(rng=None):
    """The rules of both modules, collected in one of the documented ways."""
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq.cengines import DecompositionRuleSet
    mods = [projectq.libs.math, projectq.setups.decompositions]
    rules = [r for m in mods for r in m.all_defined_decomposition_rules]
    way = rng.randrange(5) if rng is not None else 0
    if way == 0:
        return DecompositionRuleSet(modules=mods)
    if way == 1:
        return DecompositionRuleSet(rules=rules)
    k = rng.randrange(len(rules)) if way == 4 else 0
    r = DecompositionRuleSet(rules=rules[:k]) if k else DecompositionRuleSet()
    if way == 2:
        r.add_decomposition_rules(rules)
    else:
        for x in rules[k:]:
            r.add_decomposition_rule(x)
    return r


def junk_rules(rng):
    """Rules of other programs for the same gates, which must never be used here."""
    import projectq.ops as o
    from projectq.cengines import DecompositionRule

    def wrong(cmd):
        raise RuntimeError('a rule of another rule set was used')
    return [DecompositionRule(c, wrong) for c in rng.sample([o.H.__class__, o.X.__class__, o.Rx, o.Ry, o.Rz, o.R, o.Ph, o.Swap.__class__, o.QFT.__class__,
                                                             o.TimeEvolution, o.StatePreparation, o.UniformlyControlledRy, o.Entangle.__class__,
                                                             o.BasicGate, o.QubitOperator, o.FlipBits], 8)]


class Instance:
    """One program on one engine."""

    def __init__(self, seed, shared=None):
        from projectq import MainEngine
        from projectq.backends import Simulator
        from projectq.cengines import InstructionFilter
        rng = self.rng = random.Random('instance/%s' % seed)
        kind = self.kind = rng.choice(KINDS)
        small = kind in ('linear', 'grid', 'setup_linear', 'setup_grid', 'trapped', 'restricted')
        kw, gates = {}, 'all'
        mapped = kind in ('linear', 'grid', 'setup_linear', 'setup_grid')
        if mapped or kind == 'trapped':
            gates = ['X', 'H', 'T', 'S', 'Rz', 'Ry', 'Swap']
            kw = dict(max_controls=1, meta=False, multi=False, minq=2)
        comp = kind in ('compile', 'compile2', 'restricted', 'default', 'shared', 'trapped')
        g = prog.Gen(rng, max_qubits=5, size=rng.choice([6, 15, 25]) if not small else 10, gates=gates, highlevel=not mapped and kind != 'trapped',
                     math_gates=kind not in ('linear', 'grid', 'restricted', 'default', 'setup_linear', 'setup_grid', 'trapped'), **kw)
        body = g.program()
        if comp or mapped:
            body = strip(body, ('U', 'Rxx', 'Ryy', 'Rzz', 'AddQ') + (('Swap',) if kind == 'trapped' else ()))
        if mapped:
            from checks.c13 import too_wide
            body = [st for st in body if not too_wide([st], 0)]
        self.body = body
        eng_list = engines(rng, kind, shared)
        if kind in ('none', 'optimizer', 'optimizers', 'observers', 'manual'):
            from projectq.cengines import AutoReplacer
            # always in front: the rules may allocate ancilla qubits, which a mapper has to see
            eng_list = [AutoReplacer(rule_set(rng))] + eng_list
        f = [InstructionFilter(lambda self, cmd: cmd_kind(cmd) != 'gate' or low(cmd) and hasattr(cmd.gate, 'matrix'))] if kind in ('compile', 'compile2', 'default', 'shared') else []
        self.front, self.tap = Tap(keep=False, on_cmd=self.note('f')), Tap(keep=False, on_cmd=self.note('b'))
        self.log = []
        self.sim = Simulator(gate_fusion=rng.random() < .5, rnd_seed=rng.randrange(2**31))
        lst = [self.front] + eng_list + f + [self.tap]
        before = list(lst)
        self.eng = MainEngine(backend=self.sim, engine_list=lst, verbose=True)
        if lst != before:
            raise Violation('engine-list-changed', 'MainEngine changed the list it was given')
        self.runner = Steps(self.eng)
        self.gen = self.run()
        self.failed = None
        self.state = None

    def note(self, where):
        def on(cmd):
            from projectq.meta import LogicalQubitIDTag
            t = ','.join(sorted('%s%s' % (type(t).__name__, t.logical_qubit_id if isinstance(t, LogicalQubitIDTag) else '') for t in cmd.tags))
            self.log.append('%s %s %s' % (where, cmd_repr(cmd), t))
        return on

    def run(self):
        yield from self.runner.steps(self.body)
        self.eng.flush()
        yield
        m, v = self.sim.cheat()
        ids = sorted(m)
        self.state = ([(i, m[i]) for i in ids], np.array(v))
        yield
        from projectq.ops import All, Measure
        if self.runner.q:
            qs = list(self.runner.q.values())
            All(Measure) | qs
            self.eng.flush()
            self.final = [int(q) for q in qs]
            del qs
        else:
            self.final = []
        yield
        self.runner.q.clear()
        self.eng.flush(deallocate_qubits=True)

    def step(self):
        try:
            next(self.gen)
            return True
        except StopIteration:
            return False
        except Exception as e:
            self.failed = '%s: %s' % (type(e).__name__, str(e)[:300])
            return False

    def result(self):
        return dict(kind=self.kind, log=self.log, failed=self.failed, final=getattr(self, 'final', None), values=dict(self.runner.values), state=self.state)


def in_child(fn):
    """Result of fn in a fork of this (pristine) process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            try:
                out = ('ok', fn())
            except Violation as v:
                out = ('violation', (v.key, v.msg))
            except BaseException as e:
                import traceback
                out = ('error', '%s\n%s' % (e, traceback.format_exc()[-2000:]))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('child ended with %r' % st)
    kind, out = pickle.loads(data)
    if kind == 'violation':
        raise Violation(*out)
    if kind == 'error':
        raise RuntimeError(out)
    return out


def alone(seed):
    def f():
        i = Instance(seed)
        while i.step():
            pass
        return i.result()
    return f


class Noise:
    """Unrelated activity in the same process."""

    def __init__(self, rng):
        self.rng, self.kept, self.n = rng, [], 0

    def __call__(self):
        rng = self.rng
        from projectq import MainEngine
        from projectq.backends import CircuitDrawer, ResourceCounter, Simulator
        from projectq.meta import Compute, Control, Dagger, Loop
        from projectq.ops import CNOT, H, Measure, QFT, Rx, X
        self.n += 1
        k = rng.choice(['program', 'program', 'partial', 'abandon', 'fail', 'setup', 'drop', 'gc', 'raw', 'rules', 'dirty', 'break', 'break'])
        if k in ('program', 'partial'):
            i = Instance('noise/%d' % rng.randrange(2**31))
            for _ in range(10**6 if k == 'program' else rng.randint(1, 20)):
                if not i.step():
                    break
            self.kept.append(i)
        elif k == 'abandon':
            eng = MainEngine(Simulator(rnd_seed=1), [], verbose=True)
            q = eng.allocate_qureg(3)
            X | q[0]
            cm = rng.choice([lambda: Compute(eng), lambda: Control(eng, q[0]), lambda: Dagger(eng), lambda: Loop(eng, 3)])()
            cm.__enter__()
            H | q[1]
            CNOT | (q[1], q[2])
            self.kept.append((eng, q, cm))
        elif k == 'fail':
            eng = MainEngine(Simulator(rnd_seed=1), rng.choice([None, []]), verbose=True)
            q = eng.allocate_qureg(2)
            for bad in (lambda: CNOT | (q[0], q[0]), lambda: H | None, lambda: Rx('a') | q[0], lambda: eng.backend.get_amplitude('0', q)):
                try:
                    bad()
                except Exception:
                    pass
            self.kept.append((eng, q))
        elif k == 'setup':
            import importlib
            name = rng.choice(['default', 'trapped_ion_decomposer', 'linear', 'grid', 'restrictedgateset'])
            try:
                m = importlib.import_module('projectq.setups.' + name)
                self.kept.append(m.get_engine_list(**({'num_qubits': 5} if name == 'linear' else dict(num_rows=2, num_columns=3) if name == 'grid' else {})))
            except (TypeError, ImportError):
                pass
        elif k == 'drop' and self.kept:
            self.kept.pop(rng.randrange(len(self.kept)))
        elif k == 'gc':
            gc.collect()
        elif k == 'dirty':
            from projectq.cengines import DummyEngine
            from projectq.meta import DirtyQubitTag

            class Handler(DummyEngine):
                def is_meta_tag_handler(self, tag):
                    return tag == DirtyQubitTag
            eng = MainEngine(Simulator(rnd_seed=1), [Handler()], verbose=True)
            q = [eng.allocate_qubit(dirty=rng.random() < .7) for _ in range(rng.randint(1, 12))]
            for x in q:
                if rng.random() < .5:
                    eng.deallocate_qubit(x[0])
            self.kept.append((eng, q))
        elif k == 'rules':
            from projectq.cengines import DecompositionRuleSet
            r = rule_set()
            r.decompositions.clear()
            e = DecompositionRuleSet()
            for x in junk_rules(rng):
                e.add_decomposition_rule(x)
            self.kept += [r, e, DecompositionRuleSet(rules=junk_rules(rng))]
        elif k == 'break':
            self.broken()
        else:
            eng = MainEngine(rng.choice([ResourceCounter, CircuitDrawer])(), None, verbose=True)
            q = eng.allocate_qureg(3)
            QFT | q
            with Loop(eng, 2):
                X | q[0]
            Measure | q[1]
            eng.flush()
            self.kept.append((eng, q))


    def broken(self):
        """A program whose last engine fails in the middle of something: of a decomposition, a flush, a routing step."""
        rng = self.rng
        import projectq.ops as o
        from projectq import MainEngine
        from projectq.cengines import AutoReplacer, DummyEngine, InstructionFilter, LinearMapper, LocalOptimizer
        from projectq.libs.math import AddConstant, AddConstantModN
        from projectq.meta import Compute, Control, Dagger, Uncompute

        class Failing(DummyEngine):
            left = 10**9

            def is_available(self, cmd):
                return True

            def receive(self, cmds):
                for _ in cmds:
                    self.left -= 1
                    if self.left < 0:
                        raise RuntimeError('connection lost')
        b = Failing()
        lst = [AutoReplacer(rule_set(rng)), InstructionFilter(lambda self, cmd: cmd_kind(cmd) != 'gate' or low(cmd))]
        lst += rng.choice([[], [LocalOptimizer(rng.choice([1, 4]))], [LinearMapper(8)]])
        eng = MainEngine(b, lst, verbose=True)
        q = eng.allocate_qureg(4)
        b.left = rng.choice([rng.randint(0, 3), rng.randint(0, 12), rng.randint(0, 40)])
        gates = [lambda: rng.choice([o.UniformlyControlledRy, o.UniformlyControlledRz])([rng.uniform(.1, 3) for _ in range(8)]) | (q[:3], q[3]),
                 lambda: o.StatePreparation(self.state(3)) | q[:3], lambda: o.QFT | q, lambda: AddConstant(3) | q, lambda: AddConstantModN(1, 3) | q[:2],
                 lambda: o.TimeEvolution(.3, o.QubitOperator('X0 Y1') + o.QubitOperator('Z0')) | q, lambda: o.Entangle | q, lambda: o.Swap | (q[0], q[1])]
        try:
            for _ in range(rng.randint(1, 3)):
                g = rng.choice(gates)
                w = rng.randrange(4)
                if w == 0:
                    with Dagger(eng):
                        g()
                elif w == 1:
                    with Compute(eng):
                        g()
                    o.Rz(.2) | q[0]
                    Uncompute(eng)
                else:
                    g()
            eng.flush()
        except Exception:
            self.failures = getattr(self, 'failures', 0) + 1
        b.left = 10**9
        self.kept.append((eng, q))

    def state(self, n):
        v = np.array([self.rng.uniform(-1, 1) + 1j * self.rng.uniform(-1, 1) for _ in range(1 << n)])
        return (v / np.linalg.norm(v)).tolist()


def together(seeds, order_seed, share, noisy):
    def f():
        rng = random.Random('order/%s' % order_seed)
        noise = Noise(rng)
        shared = rule_set() if share else None
        snap = {k: list(v) for k, v in shared.decompositions.items()} if share else None
        if noisy:
            for _ in range(rng.randint(0, 3)):
                noise()
        random.seed(rng.randrange(10**6))
        np.random.seed(rng.randrange(10**6))
        before = random.getstate(), pickle.dumps(np.random.get_state())
        insts, todo, switches, last = [], list(seeds), 0, None
        live = []
        while todo or live:
            if todo and (not live or rng.random() < .15):
                s = todo.pop(0)
                i = Instance(s, shared)
                insts.append((s, i))
                live.append(i)
            i = rng.choice(live) if rng.random() < .6 or last not in live else last
            switches += i is not last
            last = i
            for _ in range(rng.choice([1, 1, 2, 5])):
                if not i.step():
                    live.remove(i)
                    break
            if rng.random() < .02:
                gc.collect()
            if noisy == 2 and rng.random() < .02:
                g, ns = random.getstate(), np.random.get_state()
                noise()
                random.setstate(g)
                np.random.set_state(ns)
        after = random.getstate(), pickle.dumps(np.random.get_state())
        if after != before:
            raise Violation('global-random-state', 'running seeded instances changed the global random state of the program (%s)'
                            % ('random' if after[0] != before[0] else 'numpy'))
        if share and {k: list(v) for k, v in shared.decompositions.items()} != snap:
            raise Violation('rule-set-changed', 'compiling changed the shared rule set')
        return [(s, i.result()) for s, i in insts], switches, (noise.n, getattr(noise, 'failures', 0))
    return f


def same(ctx, a, b, what):
    """Compare two results of one program."""
    for k in ('failed', 'final', 'values'):
        if a[k] != b[k]:
            raise Violation(k if k != 'failed' else 'error', '%s: %s alone %r, %r now' % (what, k, a[k], b[k]), engines=a['kind'], tail=b['log'][-10:])
    if a['log'] != b['log']:
        i = next((i for i, (x, y) in enumerate(zip(a['log'], b['log'])) if x != y), min(len(a['log']), len(b['log'])))
        raise Violation('stream', '%s: the command streams differ from command %d on: %r instead of %r' % (what, i, b['log'][i:i + 3], a['log'][i:i + 3]), engines=a['kind'])
    if a['state'] is not None:
        if a['state'][0] != b['state'][0] or np.abs(np.asarray(a['state'][1]) - b['state'][1]).max() > 1e-9:
            raise Violation('state', '%s: the final states differ' % what, engines=a['kind'])
        ctx.count('states')
    ctx.count('programs')
    ctx.count('commands', len(a['log']))
    ctx.sig(a['kind'], len(a['log']), str(a['final']))
    ctx.sample('%s: log of %d commands, state of %d qubits' % (a['kind'], len(a['log']), len(a['state'][0]) if a['state'] is not None else 0))


def case_interleave(ctx, rng, idx):
    seeds = [rng.randrange(2**40) for _ in range(rng.randint(1, 4))]
    if rng.random() < .3:
        seeds.append(seeds[0])          # the same program twice
    iso = {s: in_child(alone(s)) for s in set(seeds)}
    for s, r in iso.items():
        if r['failed']:
            raise Violation('program-failed', 'a valid program failed: %s' % r['failed'], engines=r['kind'], tail=r['log'][-5:])
    mixed, switches, noise = in_child(together(seeds, rng.randrange(2**40), rng.random() < .6, rng.choice([0, 1, 2])))
    ctx.count('switches', switches)
    ctx.count('noise', noise[0])
    ctx.count('broken_programs', noise[1])
    for s, r in mixed:
        same(ctx, iso[s], r, 'program %s among %d others' % (s, len(mixed) - 1))


# ------------------------------------------------------------------------------------------------ several processes
PROC = r'''
import sys, json, os, hashlib
sys.path.insert(0, %(verif)r)
so = %(so)r
from vlib import boot
boot.boot(so)
from checks import c28
out = os.fdopen(os.dup(1), 'w')
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
pad = [object() for _ in range(%(pad)d)]
for s in %(seeds)r:
    i = c28.Instance(s)
    while i.step():
        pass
    r = i.result()
    st = r.pop('state')
    r['state'] = None if st is None else [[list(x) for x in st[0]], [[round(z.real, 8) + 0., round(z.imag, 8) + 0.] for z in st[1].tolist()]]
    r['values'] = sorted(r['values'].items())
    out.write(json.dumps(r) + '\n')
out.flush()
'''


def case_process(ctx, rng, idx):
    seeds = [rng.randrange(2**40) for _ in range(14)]
    runs = []
    for h in ('1', '4242'):
        env = base_env(dict(PYTHONHASHSEED=h))
        src = PROC % dict(verif=VERIF, seeds=seeds, pad=rng.choice([0, 12345]), so=None)
        p = subprocess.run([PY, '-c', src], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if p.returncode:
            raise RuntimeError('child: ' + p.stderr.decode()[-1500:])
        runs.append([json.loads(x) for x in p.stdout.decode().splitlines()])
    for s, a, b in zip(seeds, *runs):
        for r in (a, b):
            if r['state'] is not None:
                r['state'] = ([tuple(x) for x in r['state'][0]], np.array([complex(*z) for z in r['state'][1]]))
        same(ctx, a, b, 'program %s in another process' % s)


# ------------------------------------------------------------------------------------------------------- arguments
def arguments(rng):
    """(name, arguments, use): constructs or runs something with mutable arguments."""
    import projectq.ops as o
    from projectq.backends import CircuitDrawer, Simulator
    from projectq.cengines import (DecompositionRuleSet, GridMapper, IBM5QubitMapper, LocalOptimizer, SwapAndCNOTFlipper)
    from projectq.meta import Compute, Control, Dagger, Uncompute
    from projectq import MainEngine
    r = np.random.RandomState(rng.randrange(2**31))
    n = rng.randint(1, 3)

    def eng(*lst):
        return MainEngine(Simulator(rnd_seed=3), list(lst), verbose=True)

    def default():
        import projectq.setups.default
        return eng(*projectq.setups.default.get_engine_list())

    def run(gate, k, e=None):
        e = e or rng.choice([eng, default])()
        q = e.allocate_qureg(k)
        o.All(o.H) | q
        with Compute(e):
            o.X | q[0]
        gate | (q if k > 1 else q[0])
        Uncompute(e)
        with Dagger(e):
            gate | (q if k > 1 else q[0])
        e.flush()
        o.All(o.Measure) | q
        e.flush()
        for x in q:
            x.id = -1
    k = rng.choice(['ucr', 'ucr', 'stateprep', 'matrix', 'qubitop', 'timeevo', 'perm', 'connections', 'grid', 'flipper', 'drawer', 'set', 'cheat', 'expect', 'collapse', 'wf', 'openferm', 'apply', 'params'])
    if k == 'ucr':
        a = [rng.uniform(-3, 3) for _ in range(1 << n)]
        g = rng.choice([o.UniformlyControlledRy, o.UniformlyControlledRz])

        def use(a):
            e = default()
            q = e.allocate_qureg(n + 1)
            with Dagger(e):
                g(a) | (q[:n], q[n])
            g(a) | (q[:n], q[n])
            o.get_inverse(g(a)) | (q[:n], q[n])
            e.flush()
            o.All(o.Measure) | q
            for x in q:
                x.id = -1
        return k, a, use
    if k == 'stateprep':
        v = r.normal(size=1 << n) + 1j * r.normal(size=1 << n)
        v /= np.linalg.norm(v)
        v = rng.choice([v, [complex(x) for x in v]])

        def use(v):
            e = default()
            q = e.allocate_qureg(n)
            o.StatePreparation(v) | q
            e.flush()
            o.All(o.Measure) | q
            for x in q:
                x.id = -1
        return k, v, use
    if k == 'matrix':
        from vlib import ref
        m = ref.random_unitary(r, 1 << n)
        m = rng.choice([m, m.tolist(), np.matrix(m)])
        return k, m, lambda m: run(o.MatrixGate(m), n)
    if k == 'qubitop':
        q = o.QubitOperator('X0 Y%d' % (n - 1) if n > 1 else 'X0', .3) + o.QubitOperator('Z0', -.2) + o.QubitOperator('', 1.5)

        def use(q):
            q * q, q + q, q - q, 2 * q, q / 3, -q, str(q), repr(q), q == q, q.isclose(q)
            x = q * 1
            x *= 3
            x += q
            x -= 2 * q
            x /= 2
            x.compress()
        return k, q, use
    if k in ('timeevo', 'expect', 'apply'):
        h = o.QubitOperator('X0', .3) + o.QubitOperator('Z0', -.2) + (o.QubitOperator('Y0 Z%d' % (n - 1), .5) if n > 1 else o.QubitOperator('', .25))
        if k == 'timeevo':
            return k, h, lambda h: run(o.TimeEvolution(.3, h), n)

        def use(h):
            e = eng()
            q = e.allocate_qureg(n)
            o.All(o.H) | q
            e.flush()
            if k == 'expect':
                e.backend.get_expectation_value(h, q)
            else:
                u = o.QubitOperator('X0 Z%d' % (n - 1) if n > 1 else 'X0')
                e.backend.apply_qubit_operator(u, q)
            o.All(o.Measure) | q
            e.flush()
            for x in q:
                x.id = -1
        return k, h, use
    if k == 'connections':
        c = {(2, 1), (4, 2), (2, 0), (3, 2), (3, 4), (1, 0)}

        def use(c):
            e = eng(IBM5QubitMapper(c), SwapAndCNOTFlipper(c))
            q = e.allocate_qureg(3)
            o.H | q[0]
            o.CNOT | (q[0], q[1])
            o.CNOT | (q[0], q[2])
            o.All(o.Measure) | q
            e.flush()
            for x in q:
                x.id = -1
        return k, c, use
    if k == 'grid':
        ids = list(range(10, 16))
        rng.shuffle(ids)
        d = {i: x for i, x in enumerate(ids)}

        def use(d):
            e = eng(GridMapper(2, 3, mapped_ids_to_backend_ids=d))
            q = e.allocate_qureg(4)
            o.CNOT | (q[0], q[3])
            o.CNOT | (q[1], q[2])
            o.CNOT | (q[0], q[2])
            o.All(o.Measure) | q
            e.flush()
            for x in q:
                x.id = -1
        return k, d, use
    if k == 'flipper':
        c = {(0, 1), (1, 2)}

        def use(c):
            e = eng(SwapAndCNOTFlipper(c))
            q = e.allocate_qureg(3)
            o.CNOT | (q[1], q[0])
            o.Swap | (q[1], q[2])
            o.All(o.Measure) | q
            e.flush()
            for x in q:
                x.id = -1
        return k, c, use
    if k == 'drawer':
        d = {0: 2, 1: 0, 2: 1}

        def use(d):
            dr = CircuitDrawer()
            dr.set_qubit_locations(d)
            e = MainEngine(dr, [], verbose=True)
            q = e.allocate_qureg(5)
            o.QFT | q
            e.flush()
            dr.get_latex()
            for x in q:
                x.id = -1
        return k, d, use
    if k == 'set':
        from projectq.setups import restrictedgateset
        a = dict(one=[o.Rz, o.Ry, o.H], two=[o.CNOT], other=[o.TimeEvolution])

        def use(a):
            restrictedgateset.get_engine_list(one_qubit_gates=tuple(a['one']), two_qubit_gates=tuple(a['two']), other_gates=tuple(a['other']))
        return k, a, use
    if k == 'params':
        import projectq.setups.decompositions
        a = [projectq.setups.decompositions]

        def use(a):
            DecompositionRuleSet(modules=a)
            LocalOptimizer(3)
        return k, a, use
    if k == 'perm':
        a = [int(x) for x in r.permutation(1 << n)]

        def use(a):
            g = o.BasicMathGate(lambda x: (a[x],))
            e = eng()
            q = e.allocate_qureg(n)
            g | (q,)
            e.flush()
            o.All(o.Measure) | q
            e.flush()
            for x in q:
                x.id = -1
        return k, a, use
    if k == 'openferm':
        t = {(): 1.5, ((0, 'X'), (1, 'Y')): 2., ((1, 'Z'),): -1.}

        def use(t):
            q = o.QubitOperator()
            for term, c in t.items():
                q += o.QubitOperator(term, c)
            q.compress()
        return k, t, use

    bits = [rng.randint(0, 1) for _ in range(n)]
    if k in ('cheat', 'collapse'):
        def use(bits):
            e = eng()
            q = e.allocate_qureg(n)
            o.All(o.H) | q
            e.flush()
            e.backend.get_probability(bits, q)
            e.backend.get_amplitude(bits, q)
            e.backend.collapse_wavefunction(q, bits)
            for x in q:
                x.id = -1
        return k, bits, use
    v = np.zeros(1 << n, complex)
    v[rng.randrange(1 << n)] = 1
    v = rng.choice([v, v.tolist()])

    def use(v):
        e = eng()
        q = e.allocate_qureg(n)
        e.flush()
        e.backend.set_wavefunction(v, q)
        o.All(o.H) | q
        e.flush()
        o.All(o.Measure) | q
        for x in q:
            x.id = -1
    return k, v, use


def frozen(x):
    if isinstance(x, np.ndarray):
        return (type(x).__name__, x.shape, x.tolist())
    if hasattr(x, 'terms'):
        return dict(x.terms)
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    return copy.copy(x)


def case_args(ctx, rng, idx):
    k, a, use = arguments(rng)
    before = frozen(a)
    random.seed(idx)
    np.random.seed(idx)
    s = random.getstate(), pickle.dumps(np.random.get_state())
    use(a)
    if frozen(a) != before:
        raise Violation('argument-changed:' + k, 'the %s argument %r was changed to %r' % (k, before, frozen(a)))
    if (random.getstate(), pickle.dumps(np.random.get_state())) != s:
        raise Violation('global-random-state', 'seeded use (%s) changed the global random state' % k)
    ctx.count('arguments')
    ctx.sig('arg', k, idx)


def probes(seed, fused):
    """The command streams of programs with high-level gates, compiled in new engines."""
    import projectq.ops as o
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import AutoReplacer, InstructionFilter, LocalOptimizer
    from projectq.libs.math import AddConstant, AddConstantModN, MultiplyByConstantModN, SubConstant
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
    rng = random.Random('probes/%s' % seed)
    noise = Noise(rng)
    out = []
    for _ in range(12):
        log = []
        lst = [AutoReplacer(rule_set(rng)), InstructionFilter(lambda self, cmd: cmd_kind(cmd) != 'gate' or low(cmd))]
        if rng.random() < .4:
            lst += [LocalOptimizer(3)]
        lst += [Tap(keep=False, on_cmd=lambda c, log=log: log.append(cmd_repr(c)))]
        eng = MainEngine(Simulator(gate_fusion=fused, rnd_seed=5), lst, verbose=True)
        q = eng.allocate_qureg(4)
        ang = [rng.uniform(.1, 3) for _ in range(8)]
        g = rng.choice([lambda: o.UniformlyControlledRy(ang) | (q[:3], q[3]), lambda: o.UniformlyControlledRz(ang[:4]) | (q[:2], q[3]),
                        lambda: o.StatePreparation(st) | q[:3], lambda: o.QFT | q, lambda: AddConstant(3) | q[:3], lambda: SubConstant(1) | q[:2],
                        lambda: AddConstantModN(1, 3) | q[:2], lambda: MultiplyByConstantModN(2, 3) | q[:2],
                        lambda: o.TimeEvolution(.3, o.QubitOperator('X0 Y1')) | q, lambda: o.Entangle | q, lambda: o.Swap | (q[0], q[1]),
                        lambda: o.FlipBits([1, 0, 1, 1]) | q, lambda: o.QubitOperator('X0 Y1 Z3') | q])
        st = noise.state(3)
        w = rng.randrange(5)
        if w == 0:
            with Dagger(eng):
                g()
        elif w == 1:
            with Compute(eng):
                g()
            o.X | q[0]
            Uncompute(eng)
        elif w == 2:
            with Loop(eng, 2):
                g()
        else:
            g()
        eng.flush()
        v = eng.backend.cheat()[1]
        out.append((list(log), np.array(v)))
        for x in q:
            x.id = -1
    return out


def case_recover(ctx, rng, idx):
    """Programs mean the same before and after other programs failed at any point of their compilation."""
    seeds = [rng.randrange(2**40) for _ in range(3)]
    order = rng.randrange(2**40)

    def f():
        before = [probes(s, s % 2) for s in seeds]
        noise = Noise(random.Random('recover/%d' % order))
        n = 0
        for _ in range(40):
            try:
                noise.broken()
            except Exception:
                pass
            n = getattr(noise, 'failures', 0)
        after = [probes(s, s % 2) for s in seeds]
        return before, after, n
    before, after, n = in_child(f)
    ctx.count('broken_programs', n)
    for a, b in zip(before, after):
        for (la, va), (lb, vb) in zip(a, b):
            ctx.count('probes')
            ctx.sig('probe', len(la))
            if la != lb:
                i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                raise Violation('after-failures:stream', 'after %d failed programs the stream differs from command %d on: %r instead of %r' % (n, i, lb[i:i + 3], la[i:i + 3]))
            if va.shape != vb.shape or np.abs(va - vb).max() > 1e-9:
                raise Violation('after-failures:state', 'after %d failed programs the final state differs' % n)


def case_noise(ctx, rng, idx):
    """Nothing but noise: the generator of unrelated activity itself is sane."""
    in_child(lambda: [n() for n in [Noise(rng)] for _ in range(5)] and None)


JOBS = dict(
    interleave=Job(case_interleave, 110, 1500, variant='rel', shards=5),
    pysim=Job(case_interleave, 25, 400, shards=2),
    recover=Job(case_recover, 16, 300, variant='rel', shards=2),
    process=Job(case_process, 2, 30, shards=1),
    args=Job(case_args, 600, 6000, shards=1),
)
