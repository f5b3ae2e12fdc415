"""C01: the C++ simulator in lockstep with an independent linear algebra model."""
from vlib import prog, simdrv
from vlib.harness import Job, Violation

RULE = ('random histories (allocate, gates on 1-5 targets with 0-6 controls, fused and unfused, flush, measure, deallocate) on the C++ '
        'simulator, through the engine and on the native object; a case counts as non-trivial by its set of gate widths/control counts/operations')
ASSUMPTIONS = ['numpy linear algebra is the reference', 'amplitude tolerance 1e-9 (double precision, -ffast-math)', 'up to 19 qubits (20 in the thorough tier)']
MIN = dict(states_compared=500, gates=3000)


def engine(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet
    import projectq.setups.decompositions.controlstate as cs
    import projectq.backends._sim._simulator as s
    if s.FALLBACK_TO_PYSIM:
        raise RuntimeError('C++ simulator not in use')
    fusion = rng.random() < .6
    el = [AutoReplacer(DecompositionRuleSet(modules=[cs]))] if rng.random() < .6 else []
    g = prog.Gen(rng, max_qubits=rng.choice([3, 5, 7]), size=rng.choice([15, 30, 60]), meta=False, neg=bool(el), max_controls=5)
    body = g.program()
    ctx.describe(dict(fusion=fusion, engines=len(el), program=repr(body)[:3000]))
    eng = MainEngine(backend=Simulator(gate_fusion=fusion, rnd_seed=rng.randrange(1 << 32)), engine_list=el, verbose=True)
    simdrv.EngineRun(ctx, eng, rng, every=rng.choice([1, 5, 1000])).run(body)
    ctx.count('gates', sum(st[0] in ('gate', 'cgate') for st in body))
    ctx.sig(fusion, len(el), sorted(prog.feature_set(body)))
    if idx < 2:
        ctx.sample(repr(body)[:400])


def native(ctx, rng, idx, maxq=None, steps=None, first=None, churn=0):
    from projectq.backends._sim._cppsim import Simulator
    maxq = maxq or rng.choice([2, 4, 6, 8] + ([10, 11] if ctx.thorough else []))
    d = simdrv.Native(ctx, rng, Simulator(rng.randrange(1 << 32)), maxq, ids=rng.choice(['small', 'wild']))
    every = rng.choice([1, 4, 30])
    pm = rng.choice([0, .03, .1])
    for _ in range(first or rng.randint(1, maxq)):
        d.alloc()
    for i in range(steps or rng.choice([20, 60, 120])):
        r = rng.random()
        if d.ref.n < maxq and r < (.3 if d.ref.n == 0 else .06):
            d.alloc()
        elif churn and rng.random() < churn:
            (d.alloc if d.ref.n < maxq and rng.random() < .5 else d.dealloc)()
        elif r < .10:
            d.run()
        elif r < .10 + pm:
            d.measure()
        elif r < .13 + pm:
            d.dealloc()
        else:
            d.gate()
        if i % every == 0:
            d.compare()
    d.compare()
    ctx.sig(sorted(d.feat))
    if idx < 2:
        ctx.sample([repr(h)[:100] for h in d.hist[:8]])


def native_big(ctx, rng, idx):
    native(ctx, rng, idx, maxq=rng.choice([9, 11, 12] + ([14] if ctx.thorough else [])), steps=rng.choice([15, 30]))


def huge(ctx, rng, idx):
    """Registers well beyond what the tests allocate: strides, masks and buffers above 2^16 amplitudes."""
    maxq = 17 + idx % (4 if ctx.thorough else 3)
    native(ctx, rng, idx, maxq=maxq, steps=rng.choice([10, 18]), first=maxq - rng.randint(0, 2), churn=.25)


JOBS = {
    'engine': Job(engine, 400, variant='rel', shards=3, time_quick=30),
    'native': Job(native, 500, variant='rel', shards=3, time_quick=30),
    'portable': Job(native, 500, variant='nointrin', shards=3, time_quick=30),
    'threads': Job(native_big, 40, variant='rel', shards=1, env={'OMP_NUM_THREADS': '3'}, time_quick=30),
    'huge': Job(huge, 40, variant='rel', shards=1, env={'OMP_NUM_THREADS': '2'}, time_quick=60),
    'portable_threads': Job(native_big, 40, variant='nointrin', shards=1, env={'OMP_NUM_THREADS': '3'}, time_quick=30),
}
