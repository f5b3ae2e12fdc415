"""C03: measurement and deallocation."""
import math

import numpy as np

from vlib import prog, ref, simdrv
from vlib.harness import Job, Violation

RULE = ('random entangled states (dense, sparse, skewed, basis) built by gates or set directly, random subsets and orders of measured qubits, '
        're-measurement, refused and accepted deallocations, joint-outcome statistics per state, seed replays; non-trivial by operation set, '
        'register size and outcome pattern')
ASSUMPTIONS = ['outcome statistics are judged at 6 sigma / p < 1e-7 with fixed seeds']
MIN = dict(measurements=1500, stat_shots=20000, refused_deallocations=60, seed_replays=20)


def _sim(ctx, seed):
    if 'py' in ctx.job:
        from projectq.backends._sim._pysim import Simulator
    else:
        from projectq.backends._sim._cppsim import Simulator
    return Simulator(seed)


def history(ctx, rng, idx):
    py = 'py' in ctx.job
    maxq = rng.choice([1, 2, 3, 4] if py else [1, 3, 5, 7])
    d = simdrv.Native(ctx, rng, _sim(ctx, rng.randrange(1 << 32)), maxq, ids=rng.choice(['small', 'wild']))
    for _ in range(rng.randint(1, maxq)):
        d.alloc()
    for i in range(30):
        r = rng.random()
        if d.ref.n < maxq and r < (.5 if d.ref.n == 0 else .15):
            d.alloc()
        elif not d.ref.n:
            continue
        elif r < .45:
            d.gate()
        elif r < .6:
            d.measure()
        elif r < .72:
            d.remeasure()
        elif r < .84:
            d.dealloc()
        elif r < .92:
            d.set_wf()
        else:
            d.run()
    d.compare()
    # conditional outcomes against their probabilities (martingale z score)
    dev = sum(v - p for p, v in d.bits)
    var = sum(p * (1 - p) for p, v in d.bits)
    ctx.state = getattr(ctx, 'state', [0.0, 0.0])
    ctx.state[0] += dev
    ctx.state[1] += var
    ctx.sig('h', sorted(d.feat), len(d.bits))
    if idx < 2:
        ctx.sample([repr(h)[:100] for h in d.hist[:10]])


def huge(ctx, rng, idx):
    """Long registers: measuring, repeating and releasing beyond 2^16 amplitudes."""
    maxq = rng.randint(16, 20 if ctx.thorough else 18)
    d = simdrv.Native(ctx, rng, _sim(ctx, rng.randrange(1 << 32)), maxq, ids=rng.choice(['small', 'wild']))
    while d.ref.n < maxq:
        d.alloc()
    for i in range(14):
        r = rng.random()
        if d.ref.n < maxq and r < .15:
            d.alloc()
        elif r < .45 or i < 6:
            d.gate()
        else:
            rng.choice([d.measure, d.remeasure, d.dealloc, d.run])()
    d.compare()
    ctx.sig('huge', maxq, sorted(d.feat))


def finish(ctx):
    st = getattr(ctx, 'state', None)
    if st and st[1] > 30 and abs(st[0]) > 6 * math.sqrt(st[1]):
        ctx.violation('biased-outcomes', 'sum of (outcome - probability) is %.1f with standard deviation %.1f over the shard' % (st[0], math.sqrt(st[1])))


def stats(ctx, rng, idx):
    """Joint outcome distribution of one state."""
    py = 'py' in ctx.job
    n = rng.randint(1, 3 if py else 5)
    sim = _sim(ctx, rng.randrange(1 << 32))
    ids = rng.sample(range(100), n)
    for i in ids:
        sim.allocate_qubit(i)
    psi = simdrv.random_state(rng, n)
    order = rng.sample(ids, n)
    s = ref.State()
    for q in order:
        s.alloc(q)
    s.psi = psi
    sub = rng.sample(ids, rng.randint(1, n))
    probs = {}
    for x in range(1 << len(sub)):
        bits = tuple((x >> i) & 1 for i in range(len(sub)))
        probs[bits] = s.probability(bits, sub)
    shots = 1500 if not py else 400
    cnt = {}
    lst = psi.tolist()
    one_by_one = rng.random() < .3
    for _ in range(shots):
        sim.set_wavefunction(lst, list(order))
        if one_by_one:
            res = tuple(int(sim.measure_qubits([q])[0]) for q in sub)
        else:
            res = tuple(int(b) for b in sim.measure_qubits(list(sub)))
        cnt[res] = cnt.get(res, 0) + 1
    ctx.count('stat_shots', shots)
    for r, c in cnt.items():
        if probs[r] < 1e-12:
            raise Violation('impossible-outcome', 'outcome %s of %s seen %d times, probability %.3g' % (r, sub, c, probs[r]))
    # binomial test per outcome and per pooled event
    for r, p in probs.items():
        c = cnt.get(r, 0)
        sd = math.sqrt(max(shots * p * (1 - p), 1e-9))
        if abs(c - shots * p) > 6.5 * sd + 12:
            raise Violation('frequencies', 'outcome %s of %s: %d of %d, expected %.1f +- %.1f' % (r, sub, c, shots, shots * p, sd))
    chi, dof = 0.0, 0
    rest_c, rest_p = shots, 1.0
    for r, p in sorted(probs.items(), key=lambda t: -t[1]):
        if p * shots >= 20:
            chi += (cnt.get(r, 0) - shots * p) ** 2 / (shots * p)
            dof += 1
    if dof > 1 and chi > dof + 8 * math.sqrt(2 * dof) + 20:
        raise Violation('frequencies', 'joint distribution over %s: chi2 %.1f with %d cells' % (sub, chi, dof))
    ctx.sig('s', n, len(sub), len(cnt), one_by_one)


def rare(ctx, rng, idx):
    """Rare outcomes, forced dominance: the outcome never has zero probability and reaches every bit position."""
    n = rng.randint(2, 6)
    sim = _sim(ctx, rng.randrange(1 << 32))
    for i in range(n):
        sim.allocate_qubit(i)
    order = rng.sample(range(n), n)
    k = rng.randint(1, 3)
    idxs = rng.sample(range(1 << n), k)
    psi = np.zeros(1 << n, complex)
    for i in idxs:
        psi[i] = rng.choice([1, 1j, -1]) * rng.choice([1, 1e-3, .5])
    psi /= np.linalg.norm(psi)
    sim.set_wavefunction(psi.tolist(), order)
    res = [int(b) for b in sim.measure_qubits(list(range(n)))]
    x = sum(res[q] << order.index(q) for q in range(n))
    ctx.count('measurements')
    if x not in idxs:
        raise Violation('impossible-outcome', 'basis state %d measured, only %s are possible' % (x, idxs))
    m, v = sim.cheat()
    v = np.array(v)
    nz = [i for i in range(1 << n) if abs(v[i]) > 1e-9]
    y = sum(res[q] << m[q] for q in range(n))
    if nz != [y] or abs(abs(v[y]) - 1) > 1e-9:
        raise Violation('collapse', 'after measuring %s the state has support %s' % (res, nz))
    ctx.sig('r', n, k, tuple(res))


def engine(ctx, rng, idx):
    """Programs with a seed: outcomes are reported to the right qubit and replay."""
    from projectq import MainEngine
    from projectq.backends import Simulator
    g = prog.Gen(rng, max_qubits=5, size=25, meta=False, neg=False, max_controls=2)
    body = g.program()
    ctx.describe(repr(body)[:3000])
    seed = rng.randrange(1 << 32)
    outs = []
    for rep in range(2):
        eng = MainEngine(backend=Simulator(gate_fusion=rng.random() < .5, rnd_seed=seed), engine_list=[], verbose=True)
        er = simdrv.EngineRun(ctx, eng, rng, every=1000)
        rec = []
        orig = er.measure
        er.measure = lambda names, orig=orig, rec=rec: rec.append((list(names), orig(names))) or rec[-1][1]
        er.run(body)
        outs.append(rec)
        other = MainEngine(backend=Simulator(rnd_seed=rng.randrange(99)), engine_list=[], verbose=True)
        q = other.allocate_qubit()
        from projectq.ops import H, Measure
        H | q
        Measure | q
        other.flush()
        del q
    if outs[0] != outs[1]:
        raise Violation('seed-replay', 'same program and seed, different outcomes: %s / %s' % (outs[0], outs[1]))
    ctx.count('seed_replays')
    # refused deallocation through the engine leaves the state alone
    eng = MainEngine(backend=Simulator(rnd_seed=seed), engine_list=[], verbose=True)
    from projectq.ops import CNOT, All, Command, Deallocate, Measure, Ry
    from projectq.types import WeakQubitRef
    a, b = eng.allocate_qubit(), eng.allocate_qubit()
    t = rng.uniform(.1, 3)
    Ry(t) | a
    if rng.random() < .5:
        CNOT | (a, b)
    before = np.array(eng.backend.cheat()[1])
    try:
        eng.backend.receive([Command(eng, Deallocate, ([WeakQubitRef(eng, a[0].id)],))])
    except Exception:
        pass
    else:
        raise Violation('deallocated-superposition', 'qubit in superposition was deallocated')
    ctx.count('refused_deallocations')
    after = np.array(eng.backend.cheat()[1])
    if before.shape != after.shape or np.max(np.abs(before - after)) > 1e-12:
        raise Violation('refused-deallocation-changed-state', 'state changed by a refused deallocation')
    All(Measure) | a + b
    ctx.sig('e', sorted(prog.feature_set(body)))


def fresh(ctx, rng, idx):
    """A new simulator for every shot (not seeded, or with consecutive seeds), and long series of one simulator: frequencies and
    independence of consecutive outcomes."""
    import random
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.ops import All, H, Measure, Ry
    kind = ('unseeded', 'seeds', 'series')[idx % 3]
    t = rng.choice([math.pi / 2, 1., 2.])
    p = math.sin(t / 2) ** 2
    n = rng.randint(1, 3)
    shots = 240
    start = rng.choice([0, 1, rng.randrange(1 << 20)])
    random.seed(rng.random())
    bits = []
    eng = None
    for i in range(shots):
        if eng is None or kind != 'series':
            eng = MainEngine(Simulator(rnd_seed=start + i) if kind == 'seeds' else Simulator(), [])
            q = eng.allocate_qureg(n)
        All(Ry(t)) | q
        All(Measure) | q
        eng.flush()
        r = [int(x) for x in q]
        bits.append(r)
        if kind == 'series':
            from projectq.ops import X
            for x, b in zip(q, r):
                if b:
                    X | x
        else:
            for x in q:
                x.id = -1
    ctx.count('stat_shots', shots)
    ctx.count('fresh_shots', shots if kind != 'series' else 0)
    b = np.array(bits, float)

    def judge(x, q, what):
        m, sd = len(x) * q, math.sqrt(len(x) * q * (1 - q))
        if abs(x.sum() - m) > 6.5 * sd + 8:
            raise Violation('frequencies:' + kind, '%s: %d of %d, expected %.1f +- %.1f (%s, Ry(%.3f))' % (what, x.sum(), len(x), m, sd, kind, t))
    for k in range(n):
        judge(b[:, k], p, 'outcome 1')
        for lag in (1, 2, 3):
            i = np.arange(0, shots - lag, 2 * lag)
            judge(b[i, k] * b[i + lag, k], p * p, 'shots %d apart both 1' % lag)
        for j in range(k):
            judge(b[:, k] * b[:, j], p * p, 'two qubits both 1')
    ctx.sig('fresh', kind, n, t, start)


def edge(ctx, rng, idx):
    """Qubits which are classical up to a small amplitude, above and below the tolerance for rounding errors."""
    n = rng.randint(1, 5)
    sim = _sim(ctx, rng.randrange(1 << 32))
    for i in range(n):
        sim.allocate_qubit(i)
    order = rng.sample(range(n), n)
    q = rng.randrange(n)
    pos, b = order.index(q), rng.randint(0, 1)
    psi = np.zeros(1 << n, complex)
    main = [i for i in range(1 << n) if (i >> pos) & 1 == b]
    for i in rng.sample(main, rng.randint(1, len(main))):
        psi[i] = rng.choice([1, -1, 1j]) * rng.uniform(.1, 1)
    py = 'py' in ctx.job
    eps = rng.choice([0, 10 ** rng.uniform(-16, -11.5), 10 ** rng.uniform(-9.5 if py else -5.6, -1)])
    psi /= np.linalg.norm(psi)
    psi[rng.choice(main) ^ 1 << pos] = eps * rng.choice([1, -1, 1j])
    psi /= np.linalg.norm(psi)
    sim.set_wavefunction(psi.tolist(), order)
    classical = eps < 1e-11
    try:
        if py and rng.random() < .5:
            v = sim.get_classical_value(q)
            if classical and int(v) != b:
                raise Violation('classical-value', 'value %s of a qubit in |%d>' % (v, b))
            what = 'read'
        else:
            sim.deallocate_qubit(q)
            what = 'released'
        if not classical:
            raise Violation('classical:' + what, 'a qubit with amplitude %.3g on the other value was %s' % (eps, what))
        ctx.count('deallocations')
    except Violation:
        raise
    except Exception as e:
        if classical:
            raise Violation('not-classical', 'a qubit in |%d> up to %.3g is refused: %r' % (b, eps, e))
        ctx.count('refused_deallocations')
        what = 'refused'
    m, v = sim.cheat()
    v = np.array(v)
    names = sorted(m, key=lambda i: m[i])
    full = psi.reshape((2,) * n).transpose([n - 1 - order.index(i) for i in reversed(range(n))]).reshape(-1)
    if what == 'released':
        full = full.reshape(1 << (n - 1 - q), 2, 1 << q)[:, b].reshape(-1)
        rest = [i for i in range(n) if i != q]
    else:
        rest = list(range(n))
    if sorted(names) != rest:
        raise Violation('qubits', 'the simulator holds %s instead of %s' % (names, rest))
    k = len(rest)
    got = v.reshape((2,) * k).transpose([k - 1 - m[i] for i in reversed(rest)]).reshape(-1) if k else v
    if got.shape != full.shape or np.abs(got - full).max() > 1e-9:
        raise Violation('edge-state', 'the state changed (%s)' % what)
    ctx.sig('edge', n, what, b, int(np.log10(eps)) if eps else None)


JOBS = {
    'history': Job(history, 500, variant='rel', shards=2, time_quick=30),
    'history_py': Job(history, 250, variant=None, shards=2, time_quick=30),
    'huge': Job(huge, 20, variant='rel', shards=1, env={'OMP_NUM_THREADS': '2'}),
    'stats': Job(stats, 60, variant='rel', shards=2, time_quick=30),
    'stats_py': Job(stats, 30, variant=None, shards=2, time_quick=30),
    'rare': Job(rare, 1500, variant='rel', shards=1),
    'rare_py': Job(rare, 500, variant=None, shards=1),
    'edge': Job(edge, 800, variant='rel', shards=1),
    'edge_py': Job(edge, 600, variant=None, shards=1),
    'fresh': Job(fresh, 30, variant='rel', shards=1),
    'fresh_py': Job(fresh, 15, variant=None, shards=1),
    'engine': Job(engine, 100, variant='rel', shards=1),
    'engine_py': Job(engine, 60, variant=None, shards=1),
}
