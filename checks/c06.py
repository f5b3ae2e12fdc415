"""C06: data races (ThreadSanitizer over the OpenMP kernels and over concurrent simulators), thread-count independence."""
import ctypes
import random
import sys
import threading

import numpy as np

from vlib import ref, simdrv
from vlib.harness import Job, Skip, Violation

RULE = ('random histories under ThreadSanitizer with every synchronisation of the OpenMP regions visible (own runtime) and start jitter, '
        'several Python threads each driving their own simulator, and the same history under 1..8 OpenMP threads; non-trivial by operation set '
        'and thread count')
ASSUMPTIONS = ['TSan reports races on executed paths; the replaced OpenMP runtime implements the schedule gcc compiles in (static)']
MIN = dict(parallel_regions=2000, thread_counts=100, concurrent_runs=20)


def history(ctx, rng, idx):
    from projectq.backends._sim._cppsim import Simulator
    d = simdrv.Native(ctx, rng, Simulator(rng.randrange(1 << 32)), rng.choice([3, 5, 6, 8]), ids='small')
    steps(d, rng, 25)
    ctx.sig(sorted(d.feat))
    if idx < 2:
        ctx.sample([repr(h)[:100] for h in d.hist[:10]])
    regions(ctx)


def regions(ctx):
    import projectq.backends._sim._cppsim as m
    lib = ctypes.CDLL(m.__file__)
    try:
        now = ctypes.c_ulong.in_dll(lib, 'verif_shim_regions').value
    except ValueError:
        return
    ctx.count('parallel_regions', now - getattr(ctx, 'reg0', 0))
    ctx.reg0 = now


def steps(d, rng, n, math=True):
    for _ in range(rng.randint(max(1, d.maxq - 3), d.maxq)):
        d.alloc()
    for i in range(n):
        r = rng.random()
        if d.ref.n < d.maxq and r < .07:
            d.alloc()
        elif r < .12:
            d.measure()
        elif r < .17:
            d.dealloc()
        elif d.ref.n and r < .45:
            rng.choice([d.q_probability, d.q_amplitude, d.q_expectation, d.e_operator, d.set_wf, d.e_evolve, d.e_collapse])()
        elif d.ref.n and math and r < .6:
            domath(d, rng)
        else:
            d.gate()
    d.compare()


def domath(d, rng):
    qs = rng.sample(d.ref.names, rng.randint(1, min(4, d.ref.n)))
    n = len(qs)
    a = rng.randrange(1 << n)
    free = [q for q in d.ref.names if q not in qs]
    ctl = rng.sample(free, rng.randint(0, min(1, len(free))))
    c = rng.randrange(2)
    d.log('math', c, a, qs, ctl)
    if c == 0:
        d.sim.emulate_math_addConstant(a, [qs], ctl)
        d.ref.apply_perm(lambda x: (x + a) % (1 << n), qs, ctl)
    else:
        d.sim.emulate_math(lambda x: [v ^ a for v in x], [qs], ctl)
        d.ref.apply_perm(lambda x: x ^ a, qs, ctl)


def threads(ctx, rng, idx):
    """Independent simulators in several Python threads; each is checked against its own reference."""
    from projectq.backends._sim._cppsim import Simulator
    k = rng.choice([2, 3])
    seeds = [rng.randrange(1 << 32) for _ in range(k)]
    errs = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    start = threading.Barrier(k)

    class Quiet:
        thorough = ctx.thorough

        def count(self, *a):
            pass

    def body(s):
        r = random.Random(s)
        d = simdrv.Native(Quiet(), r, Simulator(s), r.choice([3, 5, 6]), ids='small')
        try:
            start.wait(30)
            for _ in range(r.randint(2, d.maxq)):
                d.alloc()
            for i in range(20):
                x = r.random()
                if d.ref.n < d.maxq and x < .2:
                    d.alloc()
                elif d.ref.n and x < .7:
                    domath(d, r)
                elif d.ref.n and x < .8:
                    d.dealloc()
                elif d.ref.n and x < .9:
                    r.choice([d.q_expectation, d.e_operator])()
                else:
                    d.gate()
            d.compare()
        except Violation as v:
            errs.append((v.key, v.msg))
        except Exception as e:
            errs.append(('error-' + type(e).__name__, str(e)))
    ts = [threading.Thread(target=body, args=(s,)) for s in seeds]
    for t in ts:
        t.start()
    for t in ts:
        t.join(80)
    sys.setswitchinterval(old)
    ctx.count('concurrent_runs', k)
    if any(t.is_alive() for t in ts):
        raise Violation('no-progress', 'concurrent simulators did not finish')
    if errs:
        raise Violation('concurrent:' + errs[0][0], 'simulator disturbed by another one running concurrently: %s' % (errs,))
    ctx.sig('threads', k, idx)
    regions(ctx)


def counts(ctx, rng, idx):
    """One history under several thread counts: same states, same outcomes."""
    from projectq.backends._sim._cppsim import Simulator
    g = ctypes.CDLL('libgomp.so.1')
    seed, mq = rng.randrange(1 << 32), rng.choice([4, 7, 9, 10])
    res = []
    tc = rng.sample([2, 3, 4, 5, 7, 8], 2)
    for nt in [1] + tc:
        g.omp_set_num_threads(nt)
        r = random.Random(seed)
        d = simdrv.Native(ctx, r, Simulator(seed), mq, ids='small')
        try:
            steps(d, r, 20)
        finally:
            g.omp_set_num_threads(1)
        m, v = d.sim.cheat()
        res.append((nt, dict(m), np.array(v), [h for h in d.hist if h[0] == 'measure']))
        ctx.count('thread_counts')
    for nt, m, v, ms in res[1:]:
        if m != res[0][1] or v.shape != res[0][2].shape or np.max(np.abs(v - res[0][2])) > 1e-9 or ms != res[0][3]:
            raise Violation('thread-count', 'different result with %d threads (history seed %d)' % (nt, seed))
    ctx.sig('counts', tuple(tc), mq, sorted(d.feat))


TS = 'libtsan.so'
J = {'VERIF_SHIM_JITTER': '1'}
JOBS = {
    'tsan': Job(history, 60, 900, variant='tsan', shards=2, preload=TS, env=dict(OMP_NUM_THREADS='3', **J), time_quick=60),
    'tsan_portable': Job(history, 60, 900, variant='tsan_nointrin', shards=2, preload=TS, env=dict(OMP_NUM_THREADS='4', **J), time_quick=60),
    'tsan_threads': Job(threads, 30, 400, variant='tsan', shards=2, preload=TS, env=dict(OMP_NUM_THREADS='2'), time_quick=60),
    'threads': Job(threads, 60, 800, variant='rel', shards=1, time_quick=40),
    'counts': Job(counts, 60, 600, variant='rel', shards=1, time_quick=60, env=dict(OMP_NUM_THREADS='1', OMP_WAIT_POLICY='passive')),
}
