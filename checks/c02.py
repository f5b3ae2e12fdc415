"""C02: the Python simulator in lockstep with the reference, and against the C++ simulator."""
import math

import numpy as np

from vlib import prog, ref, simdrv
from vlib.harness import Job, Violation

RULE = ('random histories on the Python simulator in lockstep with the reference model, and the same engine program on both simulator '
        'implementations; non-trivial by its set of operations, gate widths and control counts')
ASSUMPTIONS = ['numpy linear algebra is the reference', 'tolerance 1e-9', 'up to 7 qubits']
MIN = dict(states_compared=300, gates=1000, differential=50)


def _py(seed):
    from projectq.backends._sim._pysim import Simulator
    return Simulator(seed)


def native(ctx, rng, idx):
    maxq = rng.choice([2, 3, 5, 6])
    d = simdrv.Native(ctx, rng, _py(rng.randrange(1 << 32)), maxq, ids=rng.choice(['small', 'wild']), tol=1e-9)
    for _ in range(rng.randint(1, maxq)):
        d.alloc()
    for i in range(rng.choice([15, 40, 70])):
        r = rng.random()
        if d.ref.n < maxq and r < (.3 if d.ref.n == 0 else .06):
            d.alloc()
        elif r < .09:
            d.run()
        elif r < .13:
            d.measure()
        elif r < .17:
            d.dealloc()
        elif d.ref.n and r < .20:
            d.e_evolve()
        elif d.ref.n and r < .23:
            rng.choice([d.q_probability, d.q_amplitude, d.q_expectation])()
        elif d.ref.n and r < .25:
            d.e_operator()
        elif d.ref.n and r < .27:
            d.e_collapse()
        else:
            d.gate()
        if i % 5 == 0:
            d.compare()
    d.compare()
    ctx.sig(sorted(d.feat))


def engine(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import Simulator
    import projectq.backends._sim._simulator as s
    if not s.FALLBACK_TO_PYSIM:
        raise RuntimeError('Python simulator not in use')
    from projectq.cengines import AutoReplacer, DecompositionRuleSet
    import projectq.setups.decompositions.controlstate as cs
    el = [AutoReplacer(DecompositionRuleSet(modules=[cs]))] if rng.random() < .6 else []
    g = prog.Gen(rng, max_qubits=rng.choice([3, 5]), size=rng.choice([12, 25]), meta=False, neg=bool(el), max_controls=3)
    body = g.program()
    ctx.describe(repr(body)[:3000])
    eng = MainEngine(backend=Simulator(gate_fusion=rng.random() < .5, rnd_seed=rng.randrange(1 << 32)), engine_list=el, verbose=True)
    simdrv.EngineRun(ctx, eng, rng, every=rng.choice([1, 6])).run(body)
    ctx.count('gates', sum(st[0] in ('gate', 'cgate') for st in body))
    ctx.sig('engine', sorted(prog.feature_set(body)))


def diff(ctx, rng, idx):
    """The same engine program on both implementations, emulated operations included."""
    from projectq import MainEngine
    from projectq.backends import Simulator
    import projectq.backends._sim._simulator as s
    import projectq.backends._sim._pysim as py
    if s.FALLBACK_TO_PYSIM:
        raise RuntimeError('C++ simulator not in use')
    g = prog.Gen(rng, max_qubits=5, size=rng.choice([10, 25]), meta=False, neg=False, max_controls=2, measure=False, highlevel=False, math_gates=True)
    body = g.program()
    for _ in range(rng.randint(0, 2)):
        k = rng.randint(1, min(2, len(g.live)))
        body.insert(rng.randrange(len(body) // 2, len(body) + 1),
                    ('gate', ('TimeEv', rng.uniform(-2, 2), [(list(map(list, t)), c) for t, c in simdrv.random_terms(rng, k).items()]),
                     [rng.sample([x[1] for x in body[:2] if x[0] == 'alloc'], k)], 'tuple'))
    # user-defined classical functions (reversible on the register)
    ctx.describe(repr(body)[:3000])
    out = []
    for kind in ('cpp', 'py'):
        be = Simulator(gate_fusion=rng.random() < .5 if kind == 'cpp' else False, rnd_seed=7)
        old = s.FALLBACK_TO_PYSIM
        if kind == 'py':
            be._simulator = py.Simulator(7)
            s.FALLBACK_TO_PYSIM = True
        try:
            eng = MainEngine(backend=be, engine_list=[], verbose=True)
            r = prog.Runner(eng)
            r.run(body)
            eng.flush()
            m, v = be.cheat()
            v = np.array(v, complex)
            m = dict(m)
        finally:
            s.FALLBACK_TO_PYSIM = old
        st = ref.State()
        st.names = sorted(m, key=m.get)
        st.psi = v
        out.append((st, dict(r.ids), [n for n in r.q], r))
    names = [out[0][1][n] for n in out[0][2]]
    a, b = out[0][0].reorder(names), out[1][0].reorder([out[1][1][n] for n in out[0][2]])
    d = float(np.max(np.abs(a - b)))
    ctx.count('differential')
    if not d < 1e-9:
        raise Violation('simulators-disagree', 'the two simulators differ by %.3g' % d)
    mc = prog.Machine(0)
    mc.run(body)
    e = float(np.max(np.abs(b - mc.state.reorder(out[0][2]))))
    if not e < 1e-9:
        raise Violation('wrong-state', 'the Python simulator differs from the program by %.3g' % e)
    ctx.sig('diff', sorted(prog.feature_set(body)))


JOBS = {
    'native': Job(native, 400, variant=None, shards=3, time_quick=40),
    'engine': Job(engine, 300, variant=None, shards=3, time_quick=40),
    'diff': Job(diff, 300, variant='rel', shards=2, time_quick=40),
}
