"""C13: qubit mappers produce hardware-conforming, equivalent circuits."""
import itertools

from vlib import prog, util
from vlib.harness import Job, Skip, Violation
from vlib.pq import RefBackend, cmd_kind, cmd_parts, cmd_repr

RULE = ('random programs (allocation, deallocation and re-allocation up to the full chip, one- and two-qubit gates, controls of both values, swaps, '
        'measurements, flushes) through every mapper; every user command carries a unique tag and an online model of the chip follows what leaves the '
        'mapper: location table, adjacency, exactly-once, roles, per-qubit order, reported mapping and statistics; small chips are also compared by '
        'state. Non-trivial when the mapper inserted swaps or re-used a location (counted)')
ASSUMPTIONS = ['chips up to 48 locations structurally, up to 6 by state', 'IBM5QubitMapper: one circuit per flush (documented)']
MIN = dict(structural_runs=1000, swaps_inserted=50000, locations_reused=2000, states_compared=800)


class UTag:
    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return isinstance(other, UTag) and other.i == self.i

    def __ne__(self, other):
        return not self == other


class Costing:
    """The mapper's cost function, observed: which swaps were considered before which event."""

    def __init__(self, cost, place):
        self.cost, self.place, self.fol = cost, place, None

    def __call__(self, swaps):
        swaps = list(swaps)
        c = self.cost(swaps)
        f = self.fol
        if f is not None:
            if f.trials and f.trials[-1][0] != len(f.events):
                f.trials = []
            f.trials.append((len(f.events), c, swaps))
        return c


class Follow:
    """Model of the chip driven by the stream that leaves the mapper."""

    def __init__(self, adjacent, locations, helpers=True):
        self.adjacent, self.locations = adjacent, locations
        self.helpers = helpers
        self.user = []          # recorded user commands
        self.alloc_of = {}
        self.dealloc_of = {}
        self.at = {}            # location -> ('q', lid) or ('h',)
        self.where = {}         # lid -> location
        self.next = {}          # lid -> list of user command indices still to come
        self.used = set()
        self.seen = set()
        self.batch = []
        self.batches = []
        self.reused = 0
        self.events = []
        self.flush_in = self.flush_out = 0
        self.trials, self.costing = [], None
        self.optimised = self.quiet = self.start = 0

    def cheapest(self, batch, start):
        if not self.trials:
            return
        e = self.trials[0][0]
        if e != start or len({repr(s) for _, _, s in self.trials}) < 2:
            return
        best = min(c for _, c, _ in self.trials)
        done = self.costing.cost([(self.costing.place[a], self.costing.place[b]) for a, b in batch])
        if done > best:
            self.bad('not-cheapest', 'the swaps %s sent cost %s by the given cost function, swaps of cost %s had been considered' % (batch, done, best))
        self.optimised += 1

    # ---- before the mapper
    def tag(self, cmd):
        k = cmd_kind(cmd)
        if k == 'flush':
            self.flush_in += 1
            return cmd
        i = len(self.user)
        sizes, t, c, s = cmd_parts(cmd)
        self.user.append((k, cmd.gate, sizes, t, c, s))
        for q in t + c:
            self.next.setdefault(q, []).append(i)
        if k in ('alloc', 'allocdirty'):
            self.alloc_of[t[0]] = i
        if k == 'dealloc':
            self.dealloc_of[t[0]] = i
        cmd.tags = list(cmd.tags) + [UTag(i)]
        if i % 3:       # further annotations of the program
            cmd.tags = cmd.tags + ['note %d' % i, ('more', i)][:i % 3]
        return cmd

    # ---- after the mapper
    def bad(self, key, msg):
        raise Violation(key, msg, stream=self.events[-40:])

    def see(self, cmd):
        from projectq.meta import LogicalQubitIDTag
        self.events.append(cmd_repr(cmd))
        k = cmd_kind(cmd)
        last, self.quiet = self.quiet, 0        # helpers allocated just before
        if k == 'flush':
            self.flush_out += 1
            return
        sizes, t, c, s = cmd_parts(cmd)
        idx = [x.i for x in cmd.tags if isinstance(x, UTag)]
        lids = [x.logical_qubit_id for x in cmd.tags if isinstance(x, LogicalQubitIDTag)]
        if self.locations is not None:
            for p in t + c:
                if p not in self.locations:
                    self.bad('unknown-location', '%s uses location %s which the chip does not have' % (cmd_repr(cmd), p))
        if k in ('alloc', 'allocdirty'):
            p = t[0]
            if p in self.at:
                self.bad('location-occupied', 'allocation at location %s which holds %s' % (p, self.at[p]))
            if idx:
                lid = self.user[idx[0]][3][0]
                if lids and lids[0] != lid:
                    self.bad('wrong-logical-tag', '%s tagged %s' % (lid, lids))
            elif lids:
                lid = lids[0]
            else:
                self.at[p] = ('h',)
                self.quiet = last + 1
                return
            if lid in self.where or lid not in self.alloc_of:
                self.bad('spurious-allocation', 'logical qubit %s allocated again or never requested' % lid)
            self.at[p] = ('q', lid)
            self.where[lid] = p
            if p in self.used:
                self.reused += 1
            self.used.add(p)
            self.order(self.alloc_of[lid], [lid])
            return
        for p in t + c:
            if p not in self.at:
                self.bad('unallocated-location', '%s uses location %s which is not allocated' % (cmd_repr(cmd), p))
        if len(set(t + c)) > 2 and self.adjacent:
            self.bad('too-many-qubits', cmd_repr(cmd))
        if len(set(t + c)) == 2 and self.adjacent and not self.adjacent(*(t + c)):
            self.bad('not-adjacent', '%s acts on locations which are not adjacent' % cmd_repr(cmd))
        if k == 'dealloc':
            p = t[0]
            o = self.at.pop(p)
            if o[0] == 'h':
                if lids or idx:
                    self.bad('wrong-deallocation', 'location %s holds no logical qubit, deallocated as %s' % (p, lids or idx))
                return
            lid = o[1]
            if not lids and not idx:
                self.bad('wrong-deallocation', 'location %s of live logical qubit %s released as a helper' % (p, lid))
            want = lids[0] if lids else self.user[idx[0]][3][0]
            if want != lid:
                self.bad('wrong-deallocation', 'deallocation of logical qubit %s sent to the location of %s' % (want, lid))
            if lid not in self.dealloc_of:
                self.bad('spurious-deallocation', 'logical qubit %s' % lid)
            del self.where[lid]
            self.order(self.dealloc_of[lid], [lid])
            return
        if not idx:
            from projectq.ops import Swap
            if type(cmd.gate) is not type(Swap) or c or len(t) != 2 or not self.helpers:
                self.bad('spurious-command', '%s was not sent by the program' % cmd_repr(cmd))
            a, b = t
            if not self.batch:
                self.start = len(self.events) - 1 - last
            self.batch.append((a, b))
            self.at[a], self.at[b] = self.at[b], self.at[a]
            for p in (a, b):
                if self.at[p][0] == 'q':
                    self.where[self.at[p][1]] = p
            return
        if len(idx) != 1:
            self.bad('tags-changed', cmd_repr(cmd))
        notes = ['note %d' % idx[0], ('more', idx[0])][:idx[0] % 3]
        if [x for x in cmd.tags if isinstance(x, (str, tuple))] != notes:
            self.bad('tags-changed', '%s lost or gained annotations: %s, had %s' % (cmd_repr(cmd), cmd.tags, notes))
        uk, ug, us, ut, uc, uv = self.user[idx[0]]
        if uk != k or not (type(ug) is type(cmd.gate) and (k != 'gate' or ug == cmd.gate)):
            self.bad('gate-changed', 'user sent %s, mapper emits %s' % (ug, cmd_repr(cmd)))

        def back(ps):
            out = []
            for p in ps:
                if self.at[p][0] != 'q':
                    self.bad('wrong-qubit', '%s uses location %s which holds no logical qubit' % (cmd_repr(cmd), p))
                out.append(self.at[p][1])
            return out
        lt, lc = back(t), back(c)
        same_targets = lt == ut or (type(ug).__name__ in ('SwapGate', 'SqrtSwapGate', 'Rxx', 'Ryy', 'Rzz') and sorted(lt) == sorted(ut))
        if not same_targets or sorted(zip(lc, s)) != sorted(zip(uc, uv)) or sizes != us:
            self.bad('wrong-qubit', 'user command on %s controls %s=%s was sent on %s controls %s=%s (logical ids)' % (ut, uc, uv, lt, lc, s))
        if k == 'measure' and lids and lids[-1] != ut[0]:
            self.bad('wrong-logical-tag', 'measurement of %s tagged %s' % (ut, lids))
        self.order(idx[0], ut + uc)

    def order(self, i, lids):
        if self.batch:
            self.batches.append(self.batch)
            self.cheapest(self.batch, self.start)
            self.batch = []
        if i in self.seen:
            self.bad('sent-twice', 'user command %d sent twice' % i)
        self.seen.add(i)
        for q in set(lids):
            if self.next[q][0] != i:
                self.bad('order', 'logical qubit %s: user command %d sent before %d' % (q, i, self.next[q][0]))
            self.next[q].pop(0)

    def flushed(self, mapper):
        left = sorted(set(range(len(self.user))) - self.seen)
        if left:
            self.bad('left-behind', 'after a flush the mapper still holds %d commands (first: %s)' % (len(left), self.user[left[0]]))
        if self.flush_in != self.flush_out:
            self.bad('left-behind', '%d flushes entered, %d left' % (self.flush_in, self.flush_out))
        if self.batch:
            self.batches.append(self.batch)
            self.cheapest(self.batch, self.start)
            self.batch = []
        m = mapper.current_mapping or {}
        for lid, p in self.where.items():
            if m.get(lid) != p:
                self.bad('reported-mapping', 'logical qubit %s is at %s, the mapper reports %s' % (lid, p, m.get(lid)))
        # what was reported is the program's: the mapper goes on whatever happens to it
        for lid in m:
            m[lid] = -7
        m[-7] = 0


def depth(swaps):
    d = {}
    for a, b in swaps:
        x = max(d.get(a, 0), d.get(b, 0)) + 1
        d[a] = d[b] = x
    return max(list(d.values()) + [0])


def make_mapper(rng, big):
    from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
    from projectq.cengines import BasicMapperEngine, GridMapper, LinearMapper, ManualMapper
    kind = rng.choice(['linear', 'linear', 'cyclic', 'cyclic', 'grid', 'grid', 'grid', 'manual', 'bounded', 'basic'])
    storage = rng.choice([1, 2, 3, 5, 10, 30, 1000])
    top = 6 if not big else rng.choice([4, 6, 9, 16, 30, 48])
    if kind in ('linear', 'cyclic'):
        n = rng.randint(2, top)
        cyc = kind == 'cyclic'

        def adj(a, b):
            d = abs(a - b)
            return d == 1 or (cyc and d == n - 1)
        return kind, LinearMapper(num_qubits=n, cyclic=cyc, storage=storage), n, adj, set(range(n)), storage
    if kind == 'grid':
        while True:
            r, c = rng.randint(1, 7), rng.randint(1, 7)
            if 2 <= r * c <= top:
                break
        n = r * c
        ids = None
        if rng.random() < .5:
            perm = rng.sample(range(3 * n), n)
            ids = dict(enumerate(perm))
        inv = {v: k for k, v in (ids or {i: i for i in range(n)}).items()}
        kw = dict(num_rows=r, num_columns=c, mapped_ids_to_backend_ids=ids, storage=storage)
        if rng.random() < .5:
            kw['num_optimization_steps'] = rng.choice([1, 2, 5, 20])
        costing = None
        if rng.random() < .6:
            w = rng.randint(2, 5)
            costing = kw['optimization_function'] = Costing(rng.choice([len, lambda s: -len(s), depth, lambda s: -depth(s), lambda s: sum((a * b) % w for a, b in s) / 3]), inv)

        def adj(a, b):
            a, b = inv[a], inv[b]
            return abs(a // c - b // c) + abs(a % c - b % c) == 1
        mapper = GridMapper(**kw)
        mapper.verif_costing = costing
        return kind, mapper, n, adj, set(inv), storage
    if kind == 'manual':
        a = rng.choice([3, 5, 7])
        b = rng.randint(0, 9)
        table = {i: a * i + b for i in range(400)}      # places exist for qubits only, not for the mark a flush carries
        return kind, ManualMapper(table.__getitem__), rng.randint(2, 8), None, None, None
    if kind == 'bounded':
        n = rng.randint(2, 8)
        return kind, BoundedQubitMapper(n), n, None, set(range(n)), None
    n = rng.randint(2, 8)
    m = BasicMapperEngine()
    locs = rng.sample(range(40), 40)
    m.current_mapping = {i: locs[i] for i in range(40)}
    return kind, m, n, None, set(range(40)), None


def user_program(ctx, rng, eng, mapper, fol, be, kind, n, steps):
    import projectq.ops as o
    from projectq.meta import Control
    live, values = [], {}
    total = 0
    one = [o.X, o.H, o.T, o.S, o.Sdag, o.Rz(.3), o.Ry(1.2), o.Ph(.4)]
    two = [o.Swap, o.SqrtSwap, o.Rxx(.2), o.Rzz(.5), o.Ryy(.1)]
    local = rng.random() < .5       # locality of interactions
    allocs = 0
    for step in range(steps):
        r = rng.random()
        if (r < .12 or len(live) < 2) and len(live) < n and (kind != 'bounded' or allocs < n) and (kind != 'basic' or total < 40):
            for _ in range(rng.choice([1, 1, 2, n])):
                if len(live) < n and (kind != 'bounded' or allocs < n) and (kind != 'basic' or total < 40):
                    live.append(eng.allocate_qubit()[0])
                    total += 1
                    allocs += 1
        elif r < .18 and len(live) > 1:
            q = live.pop(rng.randrange(len(live)))
            values.pop(q.id, None)
            eng.deallocate_qubit(q)
            del q
        elif r < .24 and live:
            q = rng.choice(live)
            o.Measure | q
            values[q.id] = q
        elif r < .30:
            eng.flush()
            fol.flushed(mapper)
            ctx.count('flushes')
            check_values(ctx, be, values)
            if kind == 'bounded' and not live:
                allocs = 0      # documented reset at a flush
        elif live:
            if rng.random() < .4 or len(live) < 2:
                (rng.choice(one)) | rng.choice(live)
            else:
                if local and len(live) > 3:
                    i = rng.randrange(len(live) - 1)
                    a, b = live[i], live[min(len(live) - 1, i + rng.randint(1, 2))]
                    if a is b:
                        continue
                else:
                    a, b = rng.sample(live, 2)
                if rng.random() < .4:
                    rng.choice(two) | (a, b)
                elif kind in ('manual', 'basic', 'bounded') and len(live) > 2 and rng.random() < .4:
                    rest = [x for x in live if x is not a]
                    cs = rng.sample(rest, rng.randint(2, len(rest)))
                    with Control(eng, cs, ''.join(rng.choice('01') for _ in cs)):
                        o.X | a
                    del rest, cs
                else:
                    with Control(eng, [a], rng.choice('01')):
                        rng.choice(one[:-1]) | b
                del a, b
    eng.flush()
    fol.flushed(mapper)
    check_values(ctx, be, values)
    values.clear()
    if rng.random() < .5:
        for q in live:
            eng.deallocate_qubit(q)
        eng.flush()
        fol.flushed(mapper)
        if fol.at:
            raise Violation('qubits-left', 'all qubits were released, the chip still holds %s' % fol.at)
    for q in live:
        q.id = -1
    return allocs


def check_values(ctx, be, values):
    last = {}
    for lid, occ, p1, v in be.outcomes:
        last[lid] = v
    for lid, q in values.items():
        ctx.count('values_read')
        if int(q) != last.get(lid):
            raise Violation('wrong-outcome', 'logical qubit %s reads %d, its last measurement gave %s' % (lid, int(q), last.get(lid)))


def case_structure(ctx, rng, idx):
    from projectq.cengines import CommandModifier
    from vlib.pq import Tap
    big = rng.random() < .6
    kind, mapper, n, adj, locs, storage = make_mapper(rng, big)
    ctx.describe('%s n=%d storage=%s' % (kind, n, storage))
    fol = Follow(adj, locs, helpers=adj is not None)
    fol.costing = getattr(mapper, 'verif_costing', None)
    if fol.costing is not None:
        fol.costing.fol = fol
    be = RefBackend(seed=idx, execute=False)
    eng = util.main_engine(be, [CommandModifier(fol.tag), mapper, Tap(on_cmd=fol.see, keep=False)])
    steps = rng.choice([20, 60, 150]) if not big else rng.choice([60, 200, 350])
    user_program(ctx, rng, eng, mapper, fol, be, kind, n, steps)
    if be.life.errors:
        raise Violation('lifecycle', be.life.errors[0])
    if adj is not None:
        st = {}
        dp = {}
        for b in fol.batches:
            st[len(b)] = st.get(len(b), 0) + 1
            d = depth(b)
            dp[d] = dp.get(d, 0) + 1
        if st != mapper.num_of_swaps_per_mapping or dp != mapper.depth_of_swaps or len(fol.batches) != mapper.num_mappings:
            raise Violation('statistics', 'mappings %d swaps %s depth %s observed; reported %d %s %s' %
                            (len(fol.batches), st, dp, mapper.num_mappings, mapper.num_of_swaps_per_mapping, mapper.depth_of_swaps))
        ctx.count('swaps_inserted', sum(len(b) for b in fol.batches))
        ctx.count('mappings', len(fol.batches))
        ctx.sig(kind, n, len(fol.batches), fol.reused)
    ctx.count('locations_reused', fol.reused)
    ctx.count('cheapest_of_several', fol.optimised)
    ctx.count('structural_runs')
    ctx.count('commands_followed', len(fol.events))
    ctx.sample('%s n=%d storage=%s: %d user commands, %d events, %d mappings' % (kind, n, storage, len(fol.user), len(fol.events), len(fol.batches)))


def case_state(ctx, rng, idx):
    while True:
        kind, mapper, n, adj, locs, storage = make_mapper(rng, False)
        if n >= 3:
            break
    g = prog.Gen(rng, max_qubits=min(n, 6), max_controls=1 if adj else 2, meta=rng.random() < .4, ancilla=False, multi=False, highlevel=False,
                 gates=['X', 'H', 'T', 'S', 'Ry', 'Rz', 'Ph', 'Y', 'Z'] + (['Swap', 'SqrtSwap', 'Rxx', 'Rzz']),
                 size=rng.choice([15, 30, 50]), alloc=kind != 'bounded', minq=2)
    body = g.program()
    if adj and too_wide(body, 0):
        raise Skip
    ctx.describe('%s n=%d storage=%s %r' % (kind, n, storage, body))
    eng, r, m, be = util.run_ref(ctx, body, [mapper], idx)
    ctx.sig('state', kind, n, storage, len(be.log))
    for q in r.q.values():
        q.id = -1


def too_wide(body, nctl):
    for st in body:
        if st[0] == 'gate' and nctl + sum(map(len, st[2])) > 2:
            return True
        if st[0] == 'cgate' and nctl + len(st[2]) + sum(map(len, st[4])) > 2:
            return True
        if st[0] == 'control' and too_wide(st[3], nctl + len(st[1])):
            return True
        for x in st:
            if st[0] != 'control' and isinstance(x, list) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str):
                if too_wide(x, nctl):
                    return True
    return False


IBM = {(0, 1), (1, 0), (1, 2), (1, 3), (1, 4), (2, 1), (2, 3), (2, 4), (3, 1), (3, 4), (4, 3)}


def case_ibm5(ctx, rng, idx):
    import projectq.ops as o
    from projectq.cengines import CommandModifier, IBM5QubitMapper, SwapAndCNOTFlipper
    from vlib.pq import Tap
    if rng.random() < .5:
        conn, arg = IBM, None
    else:
        pairs = [(a, b) for a in range(5) for b in range(5) if a != b]
        conn = set(rng.sample(pairs, rng.randint(2, 8)))
        arg = set(conn)
    und = conn | {(b, a) for a, b in conn}
    fol = Follow(None, set(range(5)), helpers=False)
    be = RefBackend(seed=idx, execute=False)
    mapper = IBM5QubitMapper(arg)
    eng = util.main_engine(be, [CommandModifier(fol.tag), mapper, Tap(on_cmd=fol.see, keep=False)])
    n = rng.randint(1, 5)
    qs = [eng.allocate_qubit()[0] for _ in range(n)]
    edges = set()
    weight = {}
    pool = [p for p in itertools.permutations(range(n), 2)]
    pool = rng.sample(pool, min(len(pool), rng.randint(1, 8)))
    for _ in range(rng.randint(1, 15)):
        if pool and rng.random() < .6:
            a, b = rng.choice(pool)
            o.CNOT | (qs[a], qs[b])
            edges.add((a, b))
            weight[a, b] = weight.get((a, b), 0) + 1
        else:
            rng.choice([o.H, o.X, o.T, o.Rz(.3), o.Measure]) | rng.choice(qs)
    ctx.describe('%s edges %s' % ('default' if arg is None else sorted(conn), sorted(weight.items())))
    best = None
    for perm in itertools.permutations(range(5), n):
        if all((perm[a], perm[b]) in und for a, b in edges):
            cost = sum(w for (a, b), w in weight.items() if (perm[a], perm[b]) not in conn)
            best = cost if best is None else min(best, cost)
    try:
        eng.flush()
        ok = True
    except RuntimeError as e:
        if 'map' not in str(e):
            raise
        ok = False
    if ok != (best is not None):
        raise Violation('ibm5:feasibility', 'a placement %s, the mapper %s' % ('exists' if best is not None else 'does not exist', 'mapped' if ok else 'refused'))
    ctx.count('ibm5_%s' % ('mapped' if ok else 'refused'))
    if ok:
        fol.flushed(mapper)
        ids = [q.id for q in qs]
        cost = 0
        for (a, b), w in weight.items():
            p = (fol.where[ids[a]], fol.where[ids[b]])
            if p not in und:
                raise Violation('ibm5:not-connected', 'CNOT on unconnected locations %s' % (p,))
            if p not in conn:
                cost += w
        if cost != best:
            raise Violation('ibm5:cost', 'placement flips %d CNOTs, %d are enough' % (cost, best))
        ctx.sig('ibm5', sorted(weight), cost)
        if rng.random() < .4:
            # more qubits later: either they are given free locations of the chip or refused
            more = [eng.allocate_qubit()[0] for _ in range(rng.randint(1, 4))]
            for q in rng.sample(more + qs, 2 if len(more + qs) > 1 else 1):
                rng.choice([o.H, o.X, o.T]) | q
            try:
                eng.flush()
            except RuntimeError as e:
                if 'qubits' not in str(e):
                    raise
                ctx.count('ibm5_too_many')
            else:
                if n + len(more) > 5:
                    raise Violation('ibm5:too-many', '%d qubits were accepted' % (n + len(more)))
                fol.flushed(mapper)
                ctx.count('ibm5_more')
            for q in more:
                q.id = -1
    for q in qs:
        q.id = -1


def case_flipper(ctx, rng, idx):
    from projectq.cengines import CommandModifier, SwapAndCNOTFlipper
    from vlib.pq import Tap
    n = rng.randint(2, 5)
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    conn = set(rng.sample(pairs, rng.randint(1, len(pairs))))
    seen = []
    tagged = rng.random() < .5
    tags = []

    def tag(cmd):
        if tagged and cmd_kind(cmd) in ('gate', 'measure'):
            tags.append(UTag(len(tags)))
            cmd.tags = cmd.tags + [tags[-1]] + ([UTag(-1)] if len(tags) % 3 == 0 else [])
        return cmd

    def see(cmd):
        k = cmd_kind(cmd)
        if k in ('gate', 'measure'):
            if tagged:
                want = [len(tags) - 1] + ([-1] if len(tags) % 3 == 0 else [])
                if [t.i for t in cmd.tags if isinstance(t, UTag)] != want:
                    raise Violation('flipper:tags', '%s has the tags %s instead of %s' % (cmd_repr(cmd), [getattr(t, 'i', t) for t in cmd.tags], want))
            sizes, t, c, s = cmd_parts(cmd)
            name = type(cmd.gate).__name__
            if len(t) + len(c) > 1:
                seen.append((name, tuple(c), tuple(t)))
                if name == 'SwapGate':
                    raise Violation('swap-left', 'swap left in the stream: %s' % cmd_repr(cmd))
                if name == 'XGate' and len(c) == 1 and (c[0], t[0]) not in conn:
                    raise Violation('direction', '%s is not allowed in this direction (%s)' % (cmd_repr(cmd), sorted(conn)))
    flip = SwapAndCNOTFlipper(set(conn))
    body = [('alloc', 'q%d' % i) for i in range(n)]
    must_fail = False
    live = list(range(n))
    for _ in range(rng.randint(1, 20)):
        r = rng.random()
        if r < .3:
            body.append(('gate', (rng.choice(['H', 'T', 'X', 'S']),), [['q%d' % rng.randrange(n)]], 'tuple'))
        elif r < .4:
            body.append(('measure', ['q%d' % rng.randrange(n)]))
        elif r < .45:
            body.append(('flush',))
        else:
            a, b = rng.choice(sorted(conn)) if rng.random() < .97 else rng.choice(pairs)
            if rng.random() < .5:
                a, b = b, a
            if (a, b) not in conn and (b, a) not in conn:
                must_fail = True
            if rng.random() < .35:
                body.append(('gate', ('Swap',), [['q%d' % a], ['q%d' % b]], 'tuple'))
            else:
                body.append(('cgate', ('X',), ['q%d' % a], [rng.choice([1, 1, 0])], [['q%d' % b]]))
            if must_fail:
                break
    ctx.describe('%s %r' % (sorted(conn), body))
    if must_fail:
        be = RefBackend(seed=idx)
        eng = util.main_engine(be, [CommandModifier(tag), flip, Tap(on_cmd=see, keep=False)])
        r = prog.Runner(eng)
        try:
            r.run(body)
            eng.flush()
        except RuntimeError as e:
            if 'onnectivity' not in str(e):
                raise
            ctx.count('unconnected_refused')
            for q in r.q.values():
                q.id = -1
            return
        raise Violation('unconnected-accepted', 'a two-qubit gate on unconnected qubits was accepted')
    eng, r, m, be = util.run_ref(ctx, body, [CommandModifier(tag), flip, Tap(on_cmd=see, keep=False)], idx)
    ctx.count('flipped_streams')
    ctx.sig('flip', len(seen), len(conn), n)
    for q in r.q.values():
        q.id = -1


def case_refuse(ctx, rng, idx):
    """What a mapper cannot handle ends in an error."""
    import projectq.ops as o
    from projectq.cengines import CommandModifier, GridMapper, LinearMapper, ManualMapper
    from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
    from projectq.meta import Control
    from vlib.pq import Tap
    what = rng.choice(['three', 'full', 'ids', 'manyavail'])
    ctx.describe(what)
    n = rng.randint(3, 6)
    if what == 'ids':
        ids = {i: i for i in range(n)}
        if rng.random() < .5:
            ids[0] = ids[1]
        else:
            ids[n + 1] = ids.pop(0)
        try:
            GridMapper(1, n, mapped_ids_to_backend_ids=ids)
        except RuntimeError:
            ctx.count('refused')
            return
        raise Violation('bad-ids-accepted', '%s' % ids)
    kinds = ['linear', 'cyclic', 'grid'] + (['bounded'] if what == 'full' else [])
    kind = rng.choice(kinds)
    mapper = dict(linear=lambda: LinearMapper(n), cyclic=lambda: LinearMapper(n, cyclic=True), grid=lambda: GridMapper(1, n),
                  bounded=lambda: BoundedQubitMapper(n))[kind]()
    fol = Follow((lambda a, b: abs(a - b) == 1 or (kind == 'cyclic' and abs(a - b) == n - 1)) if kind != 'bounded' else None, set(range(n)))
    be = RefBackend(seed=idx, execute=False)
    eng = util.main_engine(be, [CommandModifier(fol.tag), mapper, Tap(on_cmd=fol.see, keep=False)])
    qs = [eng.allocate_qubit()[0] for _ in range(n)]
    if what == 'manyavail':
        for k in range(1, n + 1):
            cmd = o.BasicGate().generate_command(tuple([q] for q in qs[:k]))
            if mapper.is_available(cmd) != (k <= 2):
                raise Violation('availability', '%d-qubit command available: %s' % (k, mapper.is_available(cmd)))
            if k > 1:
                cmd = o.BasicGate().generate_command(qs[0])
                cmd.add_control_qubits(qs[1:k])
                if mapper.is_available(cmd) != (k <= 2):
                    raise Violation('availability', '%d-qubit controlled command available: %s' % (k, mapper.is_available(cmd)))
        ctx.count('availability_checks')
        eng.flush()
        for q in qs:
            q.id = -1
        return
    raised = False
    try:
        if what == 'three':
            with Control(eng, qs[:2]):
                o.X | qs[2]
        else:
            extra = eng.allocate_qubit()[0]
            qs.append(extra)
            o.CNOT | (extra, qs[0])
        eng.flush()
    except Exception as e:
        raised = True
    for q in qs:
        q.id = -1
    mapper._stored_commands = []
    if not raised:
        raise Violation('accepted:' + what, '%s mapper on %d qubits accepted what it cannot map' % (kind, n))
    ctx.count('refused')


JOBS = dict(
    structure=Job(case_structure, 2000, 30000, shards=4, time_quick=60),
    state=Job(case_state, 1000, 12000, shards=2, time_quick=60),
    ibm5=Job(case_ibm5, 300, 5000, shards=1, time_quick=40),
    flipper=Job(case_flipper, 600, 9000, shards=1, time_quick=40),
    refuse=Job(case_refuse, 80, 600, shards=1, time_quick=20),
)
