"""C12: compiling to a gate set preserves the program and emits only that set."""
import math

import numpy as np

from checks import algs
from vlib import prog, ref, util
from vlib.harness import Job, Skip, Violation
from vlib.pq import RefBackend, Tap, apply_cmd, cmd_kind, cmd_repr

RULE = ('random programs (meta blocks, negative controls, high-level and arithmetic gates, mid-circuit measurement and feed-forward) compiled by every '
        'shipped setup (default, restricted gate sets, trapped ion, linear, grid, IBM, AQT, AWS, IonQ) and by random user rule sets; the stream at '
        'the backend is compared with the meaning of the program and with an independent statement of the allowed set; non-trivial by setup, '
        'gate set and emitted gate kinds')
ASSUMPTIONS = ['programs of gates for which rules exist towards the chosen set (documented requirement: Rz and one of Ry/Rx/H, CNOT or CZ)',
               'hardware device lists are mocked (no network)', 'up to 5 program qubits, reference linear algebra']
MIN = dict(states_compared=250, commands_observed=20000)


class G(prog.Gen):
    banned = ()

    def spec(self, nq):
        for _ in range(100):
            s, z = super().spec(nq)
            if s[0] not in self.banned:
                return s, z
        return ('X',), [1]


def gate_name(cmd):
    g = cmd.gate
    n = type(g).__name__
    if n == 'DaggeredGate':
        return 'dag:' + type(g.get_inverse()).__name__
    return n


FIX = {'H': 'HGate', 'X': 'XGate', 'Y': 'YGate', 'Z': 'ZGate', 'S': 'SGate', 'T': 'TGate', 'SqrtX': 'SqrtXGate', 'Sdag': 'dag:SGate', 'Tdag': 'dag:TGate',
       'Swap': 'SwapGate', 'Barrier': 'BarrierGate', 'QFT': 'QFTGate', 'CNOT': ('XGate', 1), 'CZ': ('ZGate', 1)}


def declared(one, two, other=(), extra=None):
    """Independent statement of the allowed commands of a restricted gate set."""
    one_s = one if one == 'any' else {FIX.get(x, x) for x in one}
    two_s = two if two == 'any' else {FIX.get(x, x) for x in two}
    oth = {FIX.get(x, x) for x in other}

    def ok(cmd):
        n = sum(len(r) for r in cmd.qubits)
        c = len(cmd.control_qubits)
        name = gate_name(cmd)
        if extra and extra(cmd):
            return True
        if any(v == '0' for v in cmd.control_state):
            return False
        if n + c == 1 and (one_s == 'any' or name in one_s):
            return True
        if n + c == 2 and (two_s == 'any' or (name in two_s and c == 0) or (name, c) in two_s):
            return True
        # gates are allowed as given; a gate class allows all its instances, also controlled
        return name in oth and (c == 0 or name == 'TimeEvolution')
    return ok


def ops(names):
    import projectq.ops as o
    return tuple(getattr(o, n) for n in names)


def run_setup(ctx, rng, engines, pred, body, label, seed, available=None):
    be = RefBackend(seed=seed, available=pred if available is None else available)
    try:
        eng, r, m, be = util.run_ref(ctx, body, engines, seed, backend=be, key='setup:' + label)
    except ValueError as e:
        if 'must be a single qubit' in str(e):     # documented: the adders take at most one control qubit
            raise Skip from None
        raise
    kinds = sorted({x.split('|')[0].split('(')[0] for x in be.log})
    ctx.sig(label, kinds, len(be.log) // 20)
    ctx.count('setup:' + label)
    bad = [x for x in be.refused]
    ctx.check(not bad, 'not-allowed:' + label, 'command outside the gate set: %s' % bad[:3])
    for n in list(r.q):
        r.q[n].id = -1
    return be


def gen_body(rng, **kw):
    banned = kw.pop('banned', ())
    g = G(rng, **kw)
    g.banned = banned
    return g.program()


SETS1 = ['any', ('Rz', 'Ry', 'Rx', 'H'), ('Rz', 'Ry', 'H'), ('Rz', 'H'), ('Rz', 'Rx'), ('Rz', 'Ry', 'X', 'H', 'S', 'T'), ('R', 'Rz', 'Ry', 'H')]
SETS2 = [('CNOT',), ('CNOT',), ('CNOT', 'Swap'), 'any', ('CNOT', 'CZ')]
SETSO = [(), (), (), ('TimeEvolution',), ('Barrier',), ('QFT',)]


def drop_defaults(rng, kw, **default):
    """Leaves out arguments which have their documented default values."""
    for k, d in default.items():
        if d and rng.random() < .5:
            kw.pop(k)


def restricted(ctx, rng, idx):
    from projectq.setups import restrictedgateset
    one, two, other = rng.choice(SETS1), rng.choice(SETS2), rng.choice(SETSO)
    lib = bool(rng.random() < .5)
    body = gen_body(rng, max_qubits=rng.choice([3, 4, 5]), size=rng.choice([8, 15]), highlevel=True, math_gates=lib, max_controls=2,
                    multi=False, banned=prog.ROT2)
    ctx.describe(dict(one=one, two=two, other=other, program=repr(body)[:3500]))
    a = dict(one_qubit_gates=one if one == 'any' else ops(one), two_qubit_gates=two if two == 'any' else ops(two), other_gates=ops(other))
    drop_defaults(rng, a, one_qubit_gates=one == 'any', two_qubit_gates=two == ('CNOT',), other_gates=not other)
    engines = fresh(lambda: restrictedgateset.get_engine_list(**a))
    seed = rng.randrange(1 << 30)
    be = run_setup(ctx, rng, engines, declared(one, two, other, lambda c: gate_name(c) == 'dag:QFTGate' and 0), body, 'restricted', seed,
                   # the backend itself takes anything of that set
                   )
    if idx % 4 == 0:    # the same program compiles to the same stream again
        be2 = run_setup(ctx, rng, restrictedgateset.get_engine_list(**a), declared(one, two, other), body, 'restricted', seed)
        ctx.check(be.log == be2.log, 'not-deterministic', 'two compilations of one program differ', a=be.log[:60], b=be2.log[:60])
    if idx < 2:
        ctx.sample(dict(one=one, two=two, emitted=be.log[:8]))


def own_gates(ctx, rng, idx):
    """Gates of the program's own classes (and derived ones) which a set allows reach the backend as they are."""
    from projectq import MainEngine
    from projectq.ops import CNOT, BasicGate, BasicMathGate, H, MatrixGate, R, Rx, Rz, X
    from projectq.setups import grid, linear, restrictedgateset

    class Own(BasicGate):
        def __init__(self, k):
            super().__init__()
            self.k = k

        def __eq__(self, other):
            return isinstance(other, Own) and self.k == other.k

        def __hash__(self):
            return hash(self.k)

        def __str__(self):
            return 'Own%d' % self.k

    class Derived(Own):
        pass

    class Math(BasicMathGate):
        def __init__(self, k):
            super().__init__(lambda *a: tuple(a))
            self.k = k

    class Turned(Rx):
        pass
    lib = rng.choice(['restricted', 'restricted', 'linear', 'grid'])
    one = rng.choice([(Own, H, Rz, Turned), (Own(1), Own(2), Own(3), Derived, Rz, H), (Own, Rx, Rz, H)])
    two = rng.choice([(CNOT, Own), (CNOT, Own(1), Own(2), Own(3)), (CNOT, Derived, MatrixGate)])
    allowed1 = [lambda: Own(rng.randint(1, 3)), lambda: Derived(rng.randint(1, 3))]
    if one[-1] is Turned or Rx in one:
        allowed1.append(lambda: Turned(rng.uniform(.1, 3)))
    allowed2 = [lambda: Derived(rng.randint(1, 3))] + ([lambda: Own(rng.randint(1, 3))] if Derived not in two else [])
    kw = dict(one_qubit_gates=one, two_qubit_gates=two)
    other = ()
    if lib == 'restricted':
        other = rng.choice([(), (Math,), (BasicMathGate,), (Own(7), Math)])
        el = restrictedgateset.get_engine_list(other_gates=other, **kw)
    elif lib == 'linear':
        el = linear.get_engine_list(2, **kw)
    else:
        el = grid.get_engine_list(1, 2, **kw)
    wide = []
    if Math in other or BasicMathGate in other:
        wide.append(lambda: Math(rng.randint(1, 9)))
    if Own(7) in other:
        wide.append(lambda: Own(7))
    if Math in other and Own(7) in other or BasicMathGate in other:
        wide = wide * 2
    be = Tap()
    eng = MainEngine(be, el, verbose=True)
    q = eng.allocate_qureg(3 if lib == 'restricted' else 2)
    eng.flush()
    n = len(be.cmds)
    want, last = [], {}
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < .45:
            g, qs = rng.choice(allowed1)(), [rng.choice(q)]
        elif r < .8 or not wide:
            g, qs = rng.choice(allowed2)(), rng.sample(list(q), 2)
        else:
            g, qs = rng.choice(wide)(), rng.sample(list(q), 3)
            if isinstance(g, BasicMathGate):
                qs = qs[:rng.randint(1, 3)]
        if isinstance(g, Turned) and last.get(qs[0].id):
            continue            # would be merged
        last.update((x.id, isinstance(g, Turned)) for x in qs)
        if isinstance(g, BasicMathGate):
            g | tuple([x] for x in qs)
        else:
            g | qs
        want.append((g, [x.id for x in qs]))
    eng.flush()
    got = [(c.gate, [x.id for r in c.qubits for x in r]) for c in be.cmds[n:] if cmd_kind(c) == 'gate']
    if lib != 'restricted':
        m = eng.mapper.current_mapping
        want = [(g, [m[i] for i in ids]) for g, ids in want]
    # disjoint commands may overtake one another
    for i in sorted({x for _, ids in want + got for x in ids}):
        a, b = [[(str(type(g)), getattr(g, 'k', getattr(g, 'angle', None)), tuple(ids)) for g, ids in L if i in ids] for L in (want, got)]
        if a != b:
            raise Violation('allowed-gate-replaced', '%s setup allowing %s, %s, %s: on qubit %d the program has %s, the backend got %s' % (lib, one, two, other, i, a, b))
    ctx.count('own_gates', len(want))
    ctx.sig('own', lib, len(one), len(two), len(other), len(want))
    for x in q:
        x.id = -1


def simlike(cmd):
    n = sum(len(r) for r in cmd.qubits)
    try:
        m = cmd.gate.matrix
        if len(m) <= 32:
            return True
    except AttributeError:
        pass
    from projectq.ops import BasicMathGate
    return isinstance(cmd.gate, BasicMathGate) or gate_name(cmd) in ('TimeEvolution', 'QubitOperator')


def default(ctx, rng, idx):
    import projectq.setups.default
    kind = rng.choice(['simulator', 'any1+cnot', 'zyc', 'posonly'])
    math_ok = kind in ('simulator', 'posonly')
    body = gen_body(rng, max_qubits=rng.choice([3, 4, 5]), size=rng.choice([10, 20]), highlevel=True, math_gates=math_ok, max_controls=3,
                    multi=kind == 'simulator', banned=['MulCMod'] + ([] if math_ok else prog.ROT2))
    ctx.describe(dict(kind=kind, program=repr(body)[:3500]))
    if kind == 'simulator':
        pred = simlike
    elif kind == 'posonly':
        pred = lambda c: simlike(c) and '0' not in c.control_state
    elif kind == 'any1+cnot':
        pred = declared('any', ('CNOT',))
    else:
        pred = declared(('Rz', 'Ry', 'H'), ('CNOT',))
    run_setup(ctx, rng, fresh(projectq.setups.default.get_engine_list), pred, body, 'default:' + kind, rng.randrange(1 << 30))


def ion(ctx, rng, idx):
    from projectq.setups import restrictedgateset, trapped_ion_decomposer as t
    body = gen_body(rng, max_qubits=rng.choice([2, 3, 4]), size=rng.choice([8, 14]), highlevel=rng.random() < .4, max_controls=2, multi=False,
                    banned=prog.ROT2)
    ctx.describe(dict(program=repr(body)[:3500]))
    pred = declared(('Rx', 'Ry'), ('Rxx',))
    be = run_setup(ctx, rng, fresh(t.get_engine_list), pred, body, 'ion', 5)
    if idx % 3 == 0:
        be2 = run_setup(ctx, rng, t.get_engine_list(), pred, body, 'ion', 5)
        ctx.check(be.log == be2.log, 'not-deterministic', 'two compilations of one program differ', a=be.log[:60], b=be2.log[:60])


def mapped(ctx, rng, idx):
    """linear and grid setups."""
    from projectq.setups import grid, linear
    one, two = rng.choice(SETS1), rng.choice([('CNOT', 'Swap'), ('CNOT',), 'any'])
    body = gen_body(rng, max_qubits=3, size=rng.choice([6, 12]), highlevel=rng.random() < .4, max_controls=2, multi=False, ancilla=False, meta=rng.random() < .5,
                    banned=prog.ROT2 + ['QubitOp'])
    kw = dict(one_qubit_gates=one if one == 'any' else ops(one), two_qubit_gates=two if two == 'any' else ops(two))
    if rng.random() < .5:
        n = rng.choice([7, 8])
        cyc = rng.random() < .5
        ctx.describe(dict(setup='linear', n=n, cyclic=cyc, one=one, two=two, program=repr(body)[:3500]))
        kw['cyclic'] = cyc
        drop_defaults(rng, kw, one_qubit_gates=one == 'any', two_qubit_gates=two == ('CNOT', 'Swap'), cyclic=not cyc)
        engines = fresh(lambda: linear.get_engine_list(n, **kw))
        adj = {(i, (i + 1) % n) for i in range(n - (0 if cyc else 1))}
    else:
        r, c = rng.choice([(2, 4), (4, 2), (3, 3), (1, 7), (2, 5)])
        ctx.describe(dict(setup='grid', rows=r, cols=c, one=one, two=two, program=repr(body)[:3500]))
        drop_defaults(rng, kw, one_qubit_gates=one == 'any', two_qubit_gates=two == ('CNOT', 'Swap'))
        engines = fresh(lambda: grid.get_engine_list(r, c, **kw))
        adj = {(y * c + x, y * c + x + 1) for y in range(r) for x in range(c - 1)} | {(y * c + x, (y + 1) * c + x) for y in range(r - 1) for x in range(c)}
    base = declared(one, two)

    def pred(cmd):
        return base(cmd)
    be = run_setup(ctx, rng, engines, pred, body, 'linear/grid', rng.randrange(1 << 30))
    check_adjacent(ctx, be, adj, False)


def check_adjacent(ctx, be, adj, directed):
    n = 0
    for cmd in be.cmds:
        if cmd_kind(cmd) != 'gate':
            continue
        t = [q.id for r in cmd.qubits for q in r]
        c = [q.id for q in cmd.control_qubits]
        if len(t) + len(c) > 2:
            raise Violation('not-adjacent', 'three-qubit command after mapping: %s' % cmd_repr(cmd))
        if len(t) + len(c) == 2:
            n += 1
            a = tuple(c + t)
            ok = a in adj or (not (directed and c) and (a[1], a[0]) in adj)
            if not ok:
                raise Violation('not-adjacent', '%s on locations %s which the chip does not connect' % (cmd_repr(cmd), a))
    ctx.count('adjacent_pairs', n)


def hardware(ctx, rng, idx):
    import projectq.setups.aqt as aqt
    import projectq.setups.awsbraket as aws
    import projectq.setups.ibm as ibm
    import projectq.setups.ionq as ionq
    which = rng.choice(['ibm5', 'melbourne', 'qasm', 'aqt', 'SV1', 'Aspen-8', 'IonQ Device', 'ionq'])
    adj, directed = None, False
    kw = dict(max_qubits=3, size=rng.choice([6, 12]), highlevel=rng.random() < .4, max_controls=2, multi=False, ancilla=False, meta=rng.random() < .5)
    banned = list(prog.ROT2) + ['QubitOp']
    if which in ('ibm5', 'melbourne', 'qasm'):
        if which == 'ibm5':
            coup = rng.choice([{(0, 1), (0, 2), (1, 2), (3, 2), (3, 4), (4, 2)}, {(0, 1), (1, 2), (1, 3), (3, 4)},
                               {(1, 0), (2, 0), (2, 1), (2, 4), (3, 2), (3, 4)}])
            kw.update(max_qubits=2, flush=False, alloc=False, measure=False, max_controls=1, highlevel=False)
        else:
            # the 2x8 grid of the 16 qubit device with random directions
            pos = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 15, 8: 14, 9: 13, 10: 12, 11: 11, 12: 10, 13: 9, 14: 8, 15: 7}
            e = [(y * 8 + x, y * 8 + x + 1) for y in range(2) for x in range(7)] + [(x, x + 8) for x in range(8)]
            coup = set()
            for a, b in e:
                a, b = pos[a], pos[b]
                coup.add(rng.choice([(a, b), (b, a)]))
        ibm.show_devices = lambda *a, **k: {'dev': {'coupling_map': [list(c) for c in sorted(coup)], 'nq': 5}, 'ibmq_16_melbourne': {'coupling_map': [list(c) for c in sorted(coup)], 'nq': 15},
                                            'ibmq_qasm_simulator': {'coupling_map': [], 'nq': 32}}
        dev = {'ibm5': 'dev', 'melbourne': 'ibmq_16_melbourne', 'qasm': 'ibmq_qasm_simulator'}[which]
        engines = fresh(lambda: ibm.get_engine_list(device=dev))
        pred = declared(('Rx', 'Ry', 'Rz', 'H'), ('CNOT',), ('Barrier',))
        if which != 'qasm':
            adj, directed = coup, True
    elif which == 'aqt':
        aqt.show_devices = lambda *a, **k: {'aqt_simulator': {'nq': 11}}
        engines = fresh(lambda: aqt.get_engine_list(device='aqt_simulator'))
        pred = declared(('Rx', 'Ry'), ('Rxx',), ('Barrier',))
    elif which in ('SV1', 'Aspen-8', 'IonQ Device'):
        aws.show_devices = lambda *a, **k: {which: {'nq': 11}}
        engines = fresh(lambda: aws.get_engine_list(device=which))
        one = ['R', 'H', 'Rx', 'Ry', 'Rz', 'S', 'Sdag', 'T', 'Tdag', 'X', 'Y', 'Z'] + (['SqrtX'] if which != 'Aspen-8' else [])
        if which == 'IonQ Device':
            one.remove('R')
        pred = declared(one, ('Swap', 'CNOT', 'CZ'), ('Barrier',))
    else:
        from projectq.backends._ionq._ionq_http_client import IonQ
        IonQ.show_devices = lambda self, *a, **k: {'dummy': {'nq': 9, 'target': 'dummy'}}
        engines = fresh(lambda: ionq.get_engine_list(device='dummy'))
        pred = declared(('X', 'Y', 'Z', 'Rx', 'Ry', 'Rz', 'H', 'S', 'Sdag', 'T', 'Tdag', 'SqrtX'), ('Swap', 'Rxx', 'Ryy', 'Rzz', 'CNOT'), ('Barrier',))
        kw.update(flush=False, measure=False, alloc=False)
    body = gen_body(rng, banned=banned, **kw)
    ctx.describe(dict(setup=which, program=repr(body)[:3500]))
    be = run_setup(ctx, rng, engines, pred, body, which, rng.randrange(1 << 30))
    if adj is not None:
        check_adjacent(ctx, be, adj, directed)


def fresh(make):
    """Engine lists asked for twice: each engine of a compiler belongs to it alone."""
    a, b = make(), make()
    both = {id(x) for x in a} & {id(x) for x in b}
    if a is b or both:
        raise Violation('engines-shared', 'two engine lists from the same setup share %d engines' % len(both))
    return b


# ------------------------------------------------------------------------------------------------ rule sets of the user
def user_rules(ctx, rng, idx):
    """Random user gates with rules (inheritance, inverse rules, recognisers, choosers); tags; context freedom."""
    from projectq.cengines import AutoReplacer, CommandModifier, DecompositionRule, DecompositionRuleSet, InstructionFilter
    from projectq.meta import Compute, Control, Dagger, Uncompute
    from projectq.ops import BasicGate, get_inverse

    class Tag:
        def __init__(self, n):
            self.n = n

        def __eq__(self, other):
            return isinstance(other, Tag) and other.n == self.n

        def __hash__(self):
            return hash(self.n)

    k = rng.randint(1, 3)

    def random_ops(prims):
        """(spec or user gate index, targets, controls)"""
        out = []
        for _ in range(rng.randint(1, 4)):
            qs = list(range(k))
            rng.shuffle(qs)
            nt = 2 if k >= 2 and rng.random() < .25 else 1
            spec = ('Swap',) if nt == 2 else rng.choice([('H',), ('T',), ('X',), ('SqrtX',), ('Rz', .3), ('Ry', 1.1), ('S',), ('Rx', -.7)])
            if prims and rng.random() < .3:
                out.append((rng.choice(prims), qs, [], []))
                continue
            free = qs[nt:]
            nc = rng.randint(0, len(free))
            out.append((spec, qs[:nt], free[:nc], [rng.randint(0, 1) for _ in range(nc)]))
        return out
    classes, meanings, rules = [], [], []
    used = []

    def emit(eng, opl, qs):
        for spec, t, c, v in opl:
            g = classes[spec]() if isinstance(spec, int) else prog.spec_gate(spec)
            with Control(eng, [qs[i] for i in c], ''.join(map(str, v))):
                g | (tuple(qs[i] for i in t) if not isinstance(spec, int) else [qs[i] for i in t])

    def mat(opl):
        st = ref.State()
        cols = []
        for j in range(1 << k):
            st.names = list(range(k))
            st.psi = np.zeros(1 << k, complex)
            st.psi[j] = 1
            for spec, t, c, v in opl:
                m = meanings[spec] if isinstance(spec, int) else prog.spec_matrix(spec, [len(t)])
                st.apply(m, t, c, v)
            cols.append(st.reorder(list(range(k))))
        return np.array(cols).T

    def make(i, base, inverse_of=None):
        class UG(base):
            def __str__(self):
                return 'UG%d' % i

            def __eq__(self, other):
                return type(other) is type(self)

            def __hash__(self):
                return hash(i)
        if inverse_of is not None:
            UG.get_inverse = lambda self: inverse_of()
        UG.__name__ = 'UG%d_%d' % (idx, i)
        return UG
    n = rng.randint(1, 4)
    for i in range(n):
        kind = rng.choice(['plain', 'plain', 'sub', 'inv']) if i else 'plain'
        if kind == 'sub':       # no rule of its own: the rule of the parent class applies
            j = rng.randrange(i)
            cls = make(i, classes[j])
            if 'get_inverse' in classes[j].__dict__ or any('get_inverse' in b.__dict__ for b in cls.__mro__[1:-2]):
                kind = 'plain'
            else:
                classes.append(cls)
                meanings.append(meanings[j])
                continue
        opl = random_ops([a for a in range(i)])
        m = mat(opl)
        if kind == 'inv':       # a gate whose inverse has the rule
            g = make(i, BasicGate)
            h = make(i + 100, BasicGate)
            g.get_inverse = lambda self, h=h: h()
            h.get_inverse = lambda self, g=g: g()
            classes.append(g)
            meanings.append(m.conj().T)
            target = h
        else:
            g = make(i, BasicGate)
            classes.append(g)
            meanings.append(m)
            target = g

        def dec(cmd, opl=opl, i=i):
            used.append(i)
            eng = cmd.engine
            qs = [q for r in cmd.qubits for q in r]
            with Control(eng, cmd.control_qubits):
                emit(eng, opl, qs)

        def dec2(cmd, opl=opl, i=i):    # alternative with a compute block around
            used.append(('alt', i))
            eng = cmd.engine
            qs = [q for r in cmd.qubits for q in r]
            with Compute(eng):
                prog.spec_gate(('H',)) | qs[0]
            with Control(eng, []):
                pass
            Uncompute(eng)
            with Control(eng, cmd.control_qubits):
                emit(eng, opl, qs)
        rec = rng.choice(['always', 'split'])
        if rec == 'always':
            rules.append(DecompositionRule(target, dec))
            if rng.random() < .4:
                rules.append(DecompositionRule(target, dec2))
        else:
            rules.append(DecompositionRule(target, dec, lambda cmd: len(cmd.control_qubits) == 0))
            rules.append(DecompositionRule(target, dec2, lambda cmd: len(cmd.control_qubits) > 0))
    rng.shuffle(rules)
    import projectq.setups.decompositions.controlstate as controlstate
    chooser = rng.choice(['default', 'last', 'random'])
    choices = rng.randrange(1 << 30)

    def choose(cmd, lst):
        if chooser == 'last':
            return lst[-1]
        return lst[(choices + len(used)) % len(lst)]

    def mk(seed):
        counter = [0]

        def tag(cmd):
            if cmd_kind(cmd) == 'gate':
                cmd.tags = cmd.tags + [Tag(counter[0])]
                counter[0] += 1
            return cmd
        rs = DecompositionRuleSet(rules=rules, modules=[controlstate])
        size0 = {a: len(b) for a, b in rs.decompositions.items()}
        rep = AutoReplacer(rs) if chooser == 'default' else AutoReplacer(rs, choose)
        be = RefBackend(seed=seed)
        eng = util.main_engine(be, [CommandModifier(tag), rep, InstructionFilter(lambda self, cmd: not str(type(cmd.gate.get_inverse()).__name__ if type(cmd.gate).__name__ == 'DaggeredGate' else type(cmd.gate).__name__).startswith('UG'))])
        return eng, be, rs, size0
    eng, be, rs, size0 = mk(1)
    total = k + rng.randint(0, 2)
    q = eng.allocate_qureg(total)
    eng.flush()
    ids = [x.id for x in q]
    gen = np.random.default_rng(rng.randrange(1 << 30))
    be.state.names = list(ids)
    be.state.psi = gen.standard_normal(1 << total) + 1j * gen.standard_normal(1 << total)
    be.state.psi /= np.linalg.norm(be.state.psi)
    want = be.state.copy()
    seq = []
    for _ in range(rng.randint(1, 5)):
        qs = list(range(total))
        rng.shuffle(qs)
        nc = rng.randint(0, total - k)
        seq.append((rng.randrange(n), qs[:k], qs[k:k + nc], [rng.randint(0, 1) for _ in range(nc)], rng.choice(['', '', 'inv', 'dagger'])))
    ctx.describe(dict(k=k, seq=seq, chooser=chooser, rules=[r.gate_class.__name__ for r in rules]))

    def apply(eng, q, step):
        i, t, c, v, how = step
        g = classes[i]()
        with Control(eng, [q[x] for x in c], ''.join(map(str, v))):
            if how == 'inv':
                get_inverse(g) | [q[x] for x in t]
            elif how == 'dagger':
                with Dagger(eng):
                    g | [q[x] for x in t]
            else:
                g | [q[x] for x in t]
    before = len(be.cmds)
    pieces = []
    for step in seq:
        a = len(be.cmds)
        tagno = None
        apply(eng, q, step)
        new = be.cmds[a:]
        pieces.append([cmd_repr(c) for c in new])
        tags = {t.n for c in new for t in c.tags if isinstance(t, Tag)}
        ctx.check(len(tags) == 1 and all(any(isinstance(t, Tag) for t in c.tags) for c in new if cmd_kind(c) == 'gate'), 'tags-lost',
                  'the commands replacing one command carry its tag %s' % [[getattr(t, 'n', t) for t in c.tags] for c in new][:8])
        i, t, c, v, how = step
        m = meanings[i].conj().T if how else meanings[i]
        want.apply(m, [ids[x] for x in t], [ids[x] for x in c], v)
    eng.flush()
    ctx.check(not be.errors and not be.life.errors, 'user-rule-stream', lambda: '%s' % (be.errors + be.life.errors)[:2])
    d = ref.phase_distance(be.state.reorder(ids), want.reorder(ids))
    ctx.count('states_compared')
    ctx.count('commands_observed', len(be.cmds))
    ctx.count('user_rules')
    ctx.sig('user', k, n, len(rules), chooser, [s[4] for s in seq], len(be.cmds))
    ctx.check(d < 1e-9, 'user-rules', 'the compiled program deviates by %.3g' % d, log=be.log[before:][:60])
    ctx.check({a: len(b) for a, b in rs.decompositions.items()} == size0, 'rule-set-changed', 'compiling changed the rule set')
    if chooser != 'random':
        # each command compiles the same way on its own
        for step, piece in zip(seq, pieces):
            e2, b2, _, _ = mk(1)
            q2 = e2.allocate_qureg(total)
            e2.flush()
            a = len(b2.cmds)
            apply(e2, q2, step)
            alone = [cmd_repr(c) for c in b2.cmds[a:]]
            ctx.check(alone == piece, 'context-dependent', 'compiled alone a command gives %s, in the program %s' % (alone[:12], piece[:12]))
            for x in q2:
                x.id = -1
    for x in q:
        x.id = -1


FAMILY = [('H',), ('X',), ('Y',), ('Z',), ('S',), ('Tdag',), ('SqrtX',), ('Rx', .3), ('Ry', .7), ('Rz', 1.3), ('R', .4), ('Ph', .3), ('Swap',)]
DOCSETS = [(a, b) for a in ['any', ('Rz', 'Ry'), ('Rz', 'Rx'), ('Rz', 'H'), ('Rz', 'Ry', 'H'), ('Rz', 'Ry', 'Rx', 'H')] for b in ['any', ('CNOT',), ('CZ',), ('CNOT', 'CZ')]]


def documented_sets(ctx, rng, idx):
    """Every gate set which the documentation promises can be compiled to."""
    from projectq.setups import restrictedgateset
    one, two = DOCSETS[idx % len(DOCSETS)]
    body = [('alloc', 'q%d' % i) for i in range(4)]
    for _ in range(6):
        spec = rng.choice(FAMILY)
        nt = 2 if spec[0] == 'Swap' else 1
        qs = ['q0', 'q1', 'q2', 'q3']
        rng.shuffle(qs)
        nc = rng.choice([0, 0, 1, 1, 2])
        body.append(('gate', spec, [qs[:nt]] if nt == 1 else [[q] for q in qs[:nt]], qs[nt:nt + nc], [1] * nc))
    ctx.describe(dict(one=one, two=two, program=repr(body)))
    engines = restrictedgateset.get_engine_list(one_qubit_gates=one if one == 'any' else ops(one), two_qubit_gates=two if two == 'any' else ops(two))
    name = '%s/%s' % (one if one == 'any' else '+'.join(one), two if two == 'any' else '+'.join(two))
    try:
        run_setup(ctx, rng, engines, declared(one, two), body, 'documented', 3)
        ctx.count('documented_ok')
    except (RuntimeError, RecursionError) as e:
        raise Violation('cannot-compile:' + name, 'documented gate set %s: %s' % (name, str(e)[:200])) from None
    except Exception as e:
        if type(e).__name__ != 'NoGateDecompositionError':
            raise
        raise Violation('cannot-compile:' + name, 'documented gate set %s: %s' % (name, str(e)[:200])) from None


def context(ctx, rng, idx):
    """Shipped rules: every command compiles the same way alone, in any position, and again."""
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
    g = G(rng, max_qubits=4, highlevel=True, math_gates=True, multi=False, max_controls=2)
    g.banned = prog.ROT2
    names = ['q%d' % i for i in range(4)]
    steps = [g.gate_stmt(names) for _ in range(rng.randint(2, 5))]
    if rng.random() < .6:
        steps = steps + [rng.choice(steps)]
        rng.shuffle(steps)
    one = rng.choice(SETS1)
    pred = declared(one, ('CNOT',))
    shared = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
    ctx.describe(dict(one=one, steps=repr(steps)))

    def compile(steps, rs):
        be = RefBackend(seed=1, execute=False)
        eng = util.main_engine(be, [AutoReplacer(rs), InstructionFilter(lambda self, cmd: cmd_kind(cmd) not in ('gate', 'barrier') or pred(cmd))])
        r = prog.Runner(eng)
        r.run([('alloc', x) for x in names])
        out = []
        for st in steps:
            a = len(be.cmds)
            r.run([st])
            out.append(normal(be.cmds[a:], [r.ids[x] for x in names]))
        for x in list(r.q):
            r.q[x].id = -1
        return out
    together = compile(steps, shared)
    again = compile(steps, shared)
    ctx.check(together == again, 'not-deterministic', 'two compilations of one program differ')
    for i, st in enumerate(steps):
        alone = compile([st], rng.choice([shared, DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])]))
        ctx.check(alone[0] == together[i], 'context-dependent', 'compiled alone %s gives %s, after other commands %s' % (st, alone[0][:10], together[i][:10]))
    ctx.count('context_pieces', len(steps))
    ctx.sig('context', one, [s[1][0] for s in steps])


def normal(cmds, known):
    """Commands with helper qubits renamed by first appearance."""
    ren = {q: 'q%d' % i for i, q in enumerate(known)}
    out = []
    for c in cmds:
        for r in c.all_qubits:
            for x in r:
                ren.setdefault(x.id, 'h%d' % len(ren))
        out.append((cmd_kind(c), str(c.gate) if cmd_kind(c) == 'gate' else '', [[ren[x.id] for x in r] for r in c.qubits],
                    sorted((ren[x.id], v) for x, v in zip(c.control_qubits, c.control_state))))
    return out


def impossible(ctx, rng, idx):
    """A command that cannot be decomposed is an error; nothing of it is passed on, and the compiler keeps working."""
    import projectq.setups.decompositions
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
    from projectq.cengines._replacer._replacer import NoGateDecompositionError
    from projectq.meta import Control
    from projectq.ops import BasicGate, MatrixGate, Rzz, Ryy, get_inverse

    class Unknown(BasicGate):
        def __str__(self):
            return 'unknown'
    g = rng.choice([Unknown(), get_inverse(Unknown()), Rzz(.3), Ryy(1.), MatrixGate(ref.random_unitary(np.random.default_rng(idx), 4))])
    be = RefBackend(seed=1)
    pred = declared('any', ('CNOT',))
    eng = util.main_engine(be, [AutoReplacer(DecompositionRuleSet(modules=[projectq.setups.decompositions])),
                                InstructionFilter(lambda self, cmd: cmd_kind(cmd) not in ('gate', 'barrier') or pred(cmd))])
    q = eng.allocate_qureg(4)
    prog.spec_gate(('H',)) | q[0]
    nc = rng.choice([0, 0, 1])
    targets = [q[0], q[1]]
    ctx.describe(dict(gate=str(g), controls=nc))
    n = len(be.log)
    try:
        if nc:
            with Control(eng, q[2]):
                g | (targets if isinstance(g, MatrixGate) else tuple(targets))
        else:
            g | (targets if isinstance(g, MatrixGate) else tuple(targets))
        raised = False
    except NoGateDecompositionError:
        raised = True
    ctx.check(raised, 'undecomposable-accepted', 'no error for %s, sent %s' % (g, be.log[n:]))
    ctx.check(len(be.log) == n, 'undecomposable-partial', 'commands were sent: %s' % be.log[n:])
    prog.spec_gate(('Swap',)) | (q[0], q[3])
    eng.flush()
    want = ref.State()
    for x in q:
        want.alloc(x.id)
    want.apply(ref.H, [q[0].id])
    want.apply(ref.SWAP, [q[0].id, q[3].id])
    d = ref.phase_distance(be.state.reorder([x.id for x in q]), want.reorder([x.id for x in q]))
    ctx.check(d < 1e-9, 'after-error', 'after the error a valid program deviates by %.3g' % d)
    ctx.count('rejections')
    ctx.sig('impossible', type(g).__name__, nc)
    for x in q:
        x.id = -1


_one = RefBackend._one


def keep(self, cmd):
    self.__dict__.setdefault('cmds', []).append(cmd)
    _one(self, cmd)


RefBackend._one = keep

JOBS = {
    'restricted': Job(restricted, 120, shards=2, time_quick=60),
    'default': Job(default, 150, shards=1, time_quick=60),
    'ion': Job(ion, 90, shards=1, time_quick=60),
    'mapped': Job(mapped, 60, shards=1, time_quick=60),
    'hardware': Job(hardware, 120, shards=1, time_quick=60),
    'documented': Job(documented_sets, 72, shards=1, time_quick=60),
    'user_rules': Job(user_rules, 350, shards=1, time_quick=60),
    'own_gates': Job(own_gates, 400, shards=1, time_quick=30),
    'algorithms': Job(algs.case, 140, 2500, variant='rel', shards=2, time_quick=60),
    'context': Job(context, 60, shards=1, time_quick=60),
    'impossible': Job(impossible, 60, shards=1, time_quick=60),
}
