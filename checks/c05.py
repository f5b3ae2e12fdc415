"""C05: the native simulator under AddressSanitizer and UndefinedBehaviorSanitizer."""
import numpy as np

from vlib import ref, simdrv
from vlib.harness import Job, Skip, Violation

RULE = ('random call histories on the instrumented native module: every operation with valid arguments (1-5 targets, up to 6 controls, fused), and '
        'malformed ones (unknown/repeated/huge ids, wrong lengths, bad callbacks, allocation failure); non-trivial by the set of calls in the history')
ASSUMPTIONS = ['gcc ASan/UBSan detect the errors on executed paths only', 'OpenMP runtime not instrumented (see C06)']
MIN = dict(states_compared=200, malformed_calls=800, gates=2000)


def _reject_or_not(d, what, fn):
    """Malformed call: any Python exception or return value is fine here, the sanitizers decide."""
    d.log('malformed', what)
    d.feat.add(what)
    d.ctx.count('malformed_calls')
    try:
        fn()
        return True
    except Exception:
        return False


def malformed(d, rng):
    """True if the state is now unknown to the model."""
    s, n = d.sim, d.ref.n
    ids = list(d.ref.names)
    rng.shuffle(ids)
    bad = next(i for i in (7777, 7778, 7779, 7780) if i not in ids)
    lst = lambda k: [rng.choice(ids + [bad, 0, 1, (1 << 32) - 1]) for _ in range(k)]
    known = lambda k: [rng.choice(ids) for _ in range(k)]
    mat = lambda r, c: [[rng.choice([0, 1, 1j]) for _ in range(c)] for _ in range(r)]
    c = rng.randrange(27)
    ln = lambda: rng.choice([0, 1, n - 1 if n else 0, n, n + 1, 17])
    calls = [
        ('probability', lambda: s.get_probability([True] * ln(), lst(ln()))),
        ('probability known', lambda: s.get_probability([True] * ln(), known(ln()))),
        ('amplitude', lambda: s.get_amplitude([True] * ln(), lst(ln()))),
        ('amplitude short', lambda: s.get_amplitude([True] * rng.randint(0, n), ids)),
        ('set_wavefunction size', lambda: s.set_wavefunction([0.5] * rng.choice([0, 1, 3, 1 << n, (1 << n) + 1, 2 << n, 4 << n]), ids)),
        ('set_wavefunction ids', lambda: s.set_wavefunction([0.5] * rng.choice([1 << n, 2 << n]), lst(rng.choice([n, n + 1])))),
        ('set_wavefunction repeated', lambda: s.set_wavefunction([0.5] * (1 << n), known(n))),
        ('collapse', lambda: s.collapse_wavefunction(lst(ln()), [True] * ln())),
        ('collapse repeated', lambda: s.collapse_wavefunction(known(ln()), [True] * ln())),
        ('expectation', lambda: s.get_expectation_value([([(rng.choice([0, 1, 5, 1 << 31]), rng.choice('XYZWA '))], 1.0)], lst(rng.randint(0, 2)))),
        ('operator', lambda: s.apply_qubit_operator([([(rng.choice([0, 1, 5, 1 << 31]), rng.choice('XYZWA~'))], 1j)], lst(rng.randint(0, 2)))),
        ('evolve', lambda: s.emulate_time_evolution([([(rng.choice([0, 1, 5]), rng.choice('XYZQ'))], .5)], .3, lst(rng.randint(0, 2)), lst(rng.randint(0, 2)))),
        ('gate ids', lambda: (s.apply_controlled_gate(mat(2, 2), lst(1), lst(rng.randint(0, 3))), s.run())),
        ('gate dims', lambda: (s.apply_controlled_gate(mat(rng.choice([0, 1, 2, 3, 4, 8]), rng.choice([0, 1, 2, 4, 7])), known(rng.randint(0, 3)), []), s.run())),
        ('gate ragged', lambda: (s.apply_controlled_gate([[1, 0, 0, 0], [0], [1, 1], []], known(2), []), s.run())),
        ('gate too wide', lambda: (s.apply_controlled_gate(mat(64, 64), (ids * 6)[:6], []), s.run())),
        ('gate repeated', lambda: (s.apply_controlled_gate(mat(4, 4), [ids[0]] * 2 if ids else [], []), s.run())),
        ('gate self-control', lambda: (s.apply_controlled_gate(mat(2, 2), ids[:1], ids[:1] * 3), s.run())),
        ('measure', lambda: s.measure_qubits(lst(rng.randint(0, 3)))),
        ('measure repeated', lambda: s.measure_qubits(known(rng.randint(1, 4)) if ids else [])),
        ('dealloc', lambda: s.deallocate_qubit(bad)),
        ('classical', lambda: (s.is_classical(bad), s.get_classical_value(bad))),
        ('math ids', lambda: s.emulate_math(lambda x: x, [lst(2), lst(1)], lst(1))),
        ('measure unnormalised', lambda: (s.apply_qubit_operator([([(0, 'X')], rng.choice([.5, .1, 1e-9, 0]))], ids[:1]), s.measure_qubits(known(rng.randint(1, 3))),
                                          s.measure_qubits(known(1)))),
        ('measure nan', lambda: (s.apply_qubit_operator([([(0, 'X')], rng.choice([float('nan'), float('inf')]))], ids[:1]), s.measure_qubits(known(2)), s.is_classical(ids[0]),
                                 s.collapse_wavefunction(known(1), [True]))),
        ('classical unnormalised', lambda: (s.apply_qubit_operator([([(0, 'X')], rng.choice([1e-3, 1e-9, 0]))], ids[:1]), s.is_classical(ids[0]), s.get_classical_value(ids[0]),
                                            s.deallocate_qubit(ids[0]))),
        ('math const', lambda: rng.choice([
            lambda: s.emulate_math_addConstant(rng.choice([1 << 31, -(1 << 31), 1 << 62]), [known(2)], lst(1)),
            lambda: s.emulate_math_addConstantModN(rng.choice([5, 1 << 40, -3]), rng.choice([0, -1, 1, 7, 1 << 40]), [known(2)], []),
            lambda: s.emulate_math_multiplyByConstantModN(rng.choice([5, 1 << 40, -3]), rng.choice([0, -1, 1, 7, 1 << 33]), [lst(2)], [])])()),
    ]
    if not ids and c not in (0, 2, 4, 5, 7, 9, 10, 11, 12, 20, 21):
        return False
    name, fn = calls[c]
    return _reject_or_not(d, name, fn) or name.endswith(('unnormalised', 'nan'))    # (these have changed the state, even if the last call is rejected)


class Bad(Exception):
    pass


def callbacks(d, rng):
    """Math callbacks that fail or return bad data at some point."""
    if d.ref.n < 1:
        return
    qs = rng.sample(d.ref.names, rng.randint(1, min(3, d.ref.n)))
    calls = [0]
    when = rng.randint(1, 5)
    mode = rng.choice(['raise', 'short', 'long', 'type', 'none', 'huge', 'neg', 'ok', 'str'])

    def f(x):
        calls[0] += 1
        if calls[0] < when:
            return x
        if mode == 'raise':
            raise Bad()
        return dict(short=[], long=list(x) * 5, type=[1.5j] * len(x), none=None, huge=[1 << 80] * len(x), neg=[-1 - v for v in x],
                    ok=list(x), str='abc')[mode]
    regs = [qs] if len(qs) == 1 or rng.random() < .5 else [qs[:1], qs[1:]]
    d.log('math callback', mode)
    d.feat.add('cb-' + mode)
    d.ctx.count('malformed_calls')
    try:
        d.sim.emulate_math(f, regs, [])
    except Exception:
        pass
    # restore a known state
    d.set_wf(simdrv.random_state(rng, d.ref.n))


def history(ctx, rng, idx):
    from projectq.backends._sim._cppsim import Simulator
    maxq = rng.choice([1, 2, 4, 6, 8] + ([11] if ctx.thorough else []))
    d = simdrv.Native(ctx, rng, Simulator(rng.randrange(1 << 32)), maxq, ids=rng.choice(['small', 'wild']))
    for _ in range(rng.randint(0, maxq)):
        d.alloc()
    for i in range(rng.choice([20, 50])):
        r = rng.random()
        if d.ref.n < maxq and r < (.3 if d.ref.n == 0 else .06):
            d.alloc()
        elif r < .2:
            if malformed(d, rng):
                # accepted although malformed: bring both to a known state
                m, v = d.sim.cheat()
                if sorted(m) != sorted(d.ref.names) or len(v) != 1 << d.ref.n:
                    ctx.count('abandoned')
                    return
                d.set_wf(simdrv.random_state(rng, d.ref.n))
        elif r < .25:
            callbacks(d, rng)
        elif not d.ref.n:
            continue
        elif r < .30:
            d.measure()
        elif r < .34:
            d.dealloc()
        elif r < .5:
            rng.choice([d.q_probability, d.q_amplitude, d.q_expectation, d.e_operator, d.set_wf, d.e_evolve, d.e_collapse, d.run])()
        else:
            d.gate()
        if i % 10 == 0:
            d.compare()
    ctx.sig(sorted(d.feat))
    if idx < 2:
        ctx.sample([repr(h)[:100] for h in d.hist[:10]])


def oom(ctx, rng, idx):
    """Allocation failure (the sanitizer refuses blocks over 8 MB): the simulator stays usable and within its memory."""
    from projectq.backends._sim._cppsim import Simulator
    s = Simulator(3)
    n = 0
    failed = 0
    for i in range(24):
        try:
            s.allocate_qubit(i)
            n += 1
        except Exception:
            failed += 1
            if failed > 2:
                break
    ctx.check(failed > 0, 'no-allocation-failure', 'no allocation failed (%d qubits)' % n)
    ctx.count('allocation_failures', failed)
    H = (ref.H).tolist()
    ids = list(range(n))
    for q in rng.sample(ids, 4):
        try:
            s.apply_controlled_gate(H, [q], [])
            s.run()
        except MemoryError:
            pass
    for fn in (lambda: s.get_probability([True], [0]), lambda: s.measure_qubits([0, 1]), lambda: s.get_probability([True], [n]),
               lambda: s.apply_controlled_gate(H, [n], []), lambda: s.deallocate_qubit(n), lambda: s.run(), lambda: s.deallocate_qubit(0)):
        try:
            fn()
        except Exception:
            pass
    ctx.count('malformed_calls', 7)
    ctx.sig('oom', n)


SAN = 'libasan.so,libubsan.so'
JOBS = {
    'asan': Job(history, 360, variant='asan', shards=3, preload=SAN, time_quick=60),
    'asan_portable': Job(history, 360, variant='asan_nointrin', shards=3, preload=SAN, time_quick=60),
    'asan_clang': Job(history, 240, variant='clang', shards=2, preload='libclang_rt.asan-x86_64.so', time_quick=60),
    'asan_mt': Job(history, 60, variant='asan', shards=1, preload=SAN, time_quick=60, env={'OMP_NUM_THREADS': '3'}),
    'oom': Job(oom, 3, 6, variant='asan', shards=1, preload=SAN, env={'EXTRA_ASAN': 'max_allocation_size_mb=8'}),
}
