"""C23: circuit drawings show every gate once, on its wires, in causal order."""
import json
import os
import re
import warnings

from vlib.harness import Job, Violation
from vlib.pq import Tap, cmd_kind, cmd_parts, cmd_repr

RULE = ('random circuits (all special gates, rotations, custom and wide gates, up to four controls, creation and deletion at random points, qubit numbers reused or '
        'not consecutive behind a mapper) drawn by both drawers, as backend and in the middle of an engine list, in every drawing mode, '
        'with random wire permutations, settings and plot parameters; the LaTeX text is parsed into nodes and edges and the matplotlib figure is read back from its artists; '
        'every symbol is matched with the recorded commands wire by wire; drawing twice, or in between, must give the same drawing')
ASSUMPTIONS = ['up to nine qubits, 40 commands', 'the polarity of controls is not part of a drawing', 'a control between the outer targets of a wide gate is covered by its box',
               'the matplotlib drawer refuses wide gates on wires that are not neighbours (documented)']
MIN = dict(latex_drawings=400, latex_symbols=6000, mpl_drawings=60, mpl_symbols=600, reused_wires=20, results=40)


# -------------------------------------------------------------------------------------------------------- programs
def make_gates():
    import projectq.ops as o

    class Plain(o.BasicGate):
        def __init__(self, name):
            super().__init__()
            self.name = name

        def __str__(self):
            return self.name

        def __eq__(self, other):
            return isinstance(other, Plain) and self.name == other.name

        def __hash__(self):
            return hash(self.name)

    class Tex(Plain):
        def tex_str(self):
            return '\\mathcal{%s}' % self.name
    return Plain, Tex


def pick(rng, Plain, Tex):
    import projectq.ops as o
    k = rng.choice(['x', 'x', 'x', 'z', 'z', 'swap', 'swap', 'sqswap', 'fixed', 'fixed', 'rot', 'dag', 'plain', 'tex', 'wide', 'two', 'matrix', 'measure', 'ph', 'daggered', 'barrier'])
    a = rng.choice([0.5, 1, 2.25, 3.14159, rng.uniform(0, 12)])
    if k == 'x':
        return o.X, 1
    if k == 'z':
        return o.Z, 1
    if k == 'swap':
        return o.Swap, 2
    if k == 'sqswap':
        return rng.choice([o.SqrtSwap, o.get_inverse(o.SqrtSwap)]), 2
    if k == 'fixed':
        return rng.choice([o.H, o.Y, o.S, o.T, o.SqrtX]), 1
    if k == 'rot':
        return rng.choice([o.Rx, o.Ry, o.Rz, o.R])(a), 1
    if k == 'ph':
        return o.Ph(a), 1
    if k == 'dag':
        return o.get_inverse(rng.choice([o.S, o.T, o.SqrtX])), 1
    if k == 'daggered':
        return o.get_inverse(Plain('U%d' % rng.randint(0, 3))), 1
    if k == 'plain':
        return Plain('G%d' % rng.randint(0, 9)), 1
    if k == 'tex':
        return Tex('T%d' % rng.randint(0, 9)), 1
    if k == 'wide':
        return rng.choice([Plain, Tex])('W%d' % rng.randint(0, 9)), rng.randint(2, 4)
    if k == 'two':
        return rng.choice([o.Rxx, o.Ryy, o.Rzz])(a), 2
    if k == 'barrier':
        return o.Barrier, rng.randint(1, 3)
    if k == 'matrix':
        return o.MatrixGate([[0, 1], [1, 0]] if rng.random() < .5 else [[1, 0], [0, 1j]]), 1
    return o.Measure, 1


def program(ctx, rng, eng, n_max, length, mpl, midway, wide=True):
    """Run a random circuit; returns the live qubits."""
    import projectq.ops as o
    from projectq.meta import Control
    Plain, Tex = make_gates()
    live = []
    for _ in range(rng.randint(1, n_max)):
        live.append(eng.allocate_qubit()[0])
    for i in range(rng.randint(length // 3, length)):
        ev = rng.random()
        if ev < .05 and len(live) < n_max:
            live.append(eng.allocate_qubit()[0])
            continue
        if ev < .1 and live:
            q = live.pop(rng.randrange(len(live)))
            eng.deallocate_qubit(q)
            q.id = -1
            continue
        if ev < .13:
            eng.flush()
            midway(i)
            continue
        if not live:
            continue
        g, k = pick(rng, Plain, Tex)
        if k > len(live) or (k > 1 and g is not o.Swap and not wide):
            continue
        qs = list(live)
        rng.shuffle(qs)
        if mpl and k > 1 and rng.random() < .8:
            at = rng.randint(0, len(live) - k)
            t = live[at:at + k]
            rng.shuffle(t)
            qs = t + [q for q in qs if q not in t]
        t, rest = qs[:k], qs[k:]
        c = rest[:rng.choice([0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 6])]
        if g is o.Measure or g is o.Barrier:
            c = []
        regs = tuple(t) if rng.random() < .5 else (t,)
        if g in (o.Swap, o.SqrtSwap) or k == 1:
            regs = tuple(t)
        if c:
            with Control(eng, c, ctrl_state=''.join(rng.choice('1110') for _ in c)):
                g | regs
        else:
            g | regs
        if g is o.Measure:
            ctx.count('results')
    return live


class Shuffle:
    """Relabels qubits: numbers may be re-used and need not be consecutive."""

    def __new__(cls, rng, size):
        from .c25 import relabel
        ids = list(range(0, size)) if rng.random() < .5 else rng.sample(range(30), size)
        rng.shuffle(ids)
        e = relabel(ids)
        if rng.random() < .5:
            orig = e.receive

            def receive(cmds):
                orig(cmds)
                e.free.sort()               # deterministic early re-use
            e.receive = receive
        return e


# ------------------------------------------------------------------------------------------------------------ LaTeX
NUM = r'-?\d+(?:\.\d+)?(?:e-?\d+)?'
NAME = r'[A-Za-z0-9_\-]+'


def statements(tex):
    m = re.search(r'\\begin\{tikzpicture\}(?:\[[^\]]*\])?(.*)\\end\{tikzpicture\}', tex, re.S)
    if not m:
        raise Violation('latex:document', 'no tikzpicture')
    body = m.group(1)
    depth, cur, out, i = 0, '', [], 0
    while i < len(body):
        ch = body[i]
        if ch == '\\' and i + 1 < len(body) and body[i + 1] in '{}':
            cur += body[i:i + 2]
            i += 2
            continue
        if ch == '{':
            depth += 1
        elif ch == '}':
            depth -= 1
            if depth < 0:
                raise Violation('latex:braces', 'unbalanced braces: ...%s' % cur[-200:])
        if ch == ';' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
        i += 1
    if depth:
        raise Violation('latex:braces', 'unbalanced braces')
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_styles(st, styles):
    """Remove leading style definitions from a statement, recording their names."""
    while True:
        m = re.match(r'\s*\\tikzstyle', st)
        m2 = re.match(r'\s*\\tikzset\{', st)
        if m:
            m = re.match(r'\s*\\tikzstyle\{([^{}]*)\}\s*=\s*\[', st)
            if not m:
                raise Violation('latex:style', 'a style is not named: %s' % st[:80])
            d, i = 1, m.end()
            while d:
                d += {'[': 1, ']': -1}.get(st[i], 0)
                i += 1
            content = st[m.end():i - 1]
            styles[m.group(1)] = content
            st = st[i:]
        elif m2:
            d, i = 1, m2.end()
            while d:
                d += {'{': 1, '}': -1}.get(st[i], 0)
                i += 1
            for nm in re.findall(r'([A-Za-z]+)/\.style', st[m2.end():i]):
                styles[nm] = ''
            st = st[i:]
        else:
            return st.strip()


OPT = re.compile(r'^(?:(?:%s|very thin|thin|thick|red|blue|very thick|ultra thin)|(?:[a-z ]+)\s*=\s*-?\.?\d+(?:\.\d+)?(?:e-?\d+)?(?:cm|pt|em)?|draw|draw=[a-z]+|fill=[a-z]+|shape=[a-z]+|circle)$' % '[A-Za-z]+')


def options(s, styles, where):
    for part in [p.strip() for p in s.split(',')]:
        if part == '':
            continue
        if not OPT.match(part):
            raise Violation('latex:unexpanded', 'malformed option %r in %s' % (part, where[:200]))
        if re.match(r'^[A-Za-z]+$', part) and part not in styles and part not in ('draw', 'circle', 'thin', 'thick', 'shadowed', 'dashed'):
            raise Violation('latex:undefined-style', 'style %r is used but never defined (defined: %s)' % (part, sorted(styles)))


class Drawing:
    pass


def parse(tex):
    d = Drawing()
    d.nodes, d.edges, d.boxes, d.styles = {}, [], [], {}
    for st in statements(tex):
        st = strip_styles(st, d.styles)
        if not st:
            continue
        m = re.match(r'^\\node\[([^\]]*)\]\s*\((.*?)\)\s*at\s*\((%s),(%s)\)\s*\{(.*)\}$' % (NUM, NUM), st, re.S)
        if m:
            opts, name, x, y, content = m.groups()
            if not re.match('^%s$' % NAME, name):
                raise Violation('latex:unexpanded', 'node named %r' % name)
            options(opts, d.styles, st)
            if name in d.nodes:
                raise Violation('latex:node-twice', 'node %s is defined twice' % name)
            d.nodes[name] = (opts.split(',')[0].strip(), float(x), -float(y), content.strip())
            continue
        m = re.match(r'^\\draw\[([^\]]*)\]\s*\((?:\[[^\]]*\])?(%s)\)\s*rectangle\s*\((?:\[[^\]]*\])?(%s)\)\s*node\[[^\]]*\]\s*\{(.*)\}$' % (NAME, NAME), st, re.S)
        if m:
            options(m.group(1), d.styles, st)
            d.boxes.append((m.group(2), m.group(3), m.group(4)))
            d.edges.append((m.group(2), m.group(3), 'box', st))
            continue
        if st.startswith('\\draw'):
            ends = re.findall(r'\((?:\[[^\]]*\]\s*)?(%s)(?:\.([a-z ]+))?\)' % NAME, st)
            if len(ends) < 2:
                raise Violation('latex:unexpanded', 'cannot read %r' % st[:300])
            for mm in re.findall(r'\[([^\]]*)\]', st):
                options(re.sub(r'(in|out)=-?\d+', '', mm), d.styles, st)
            kind = 'edge' if ' edge' in st else 'line'
            for a, b in zip(ends, ends[1:]):
                d.edges.append((a[0], b[0], kind, st))
            continue
        raise Violation('latex:unreadable', 'statement %r' % st[:300])
    for a, b, k, st in d.edges:
        for x in (a, b):
            if x not in d.nodes:
                raise Violation('latex:undefined-node', 'node %s is connected but never defined: %s' % (x, st[:200]))
    return d


class Comp:
    """One drawn command: symbols on wires."""

    def __init__(self):
        self.on = {}            # wire -> symbol
        self.x = {}             # wire -> (left, right)
        self.nodes = {}         # wire -> node names ordered by x
        self.label = None
        self.half = None
        self.half_y = None


def components(d):
    """Group nodes into drawn commands by vertical connections."""
    comps, of = [], {}
    inbox = {}
    for a, b, label in d.boxes:
        c = Comp()
        (_, xa, ya, _), (_, xb, yb, _) = d.nodes[a], d.nodes[b]
        c.label = label
        for n, (style, x, y, content) in d.nodes.items():
            if style == 'none' and content == '' and xa - 1e-9 <= x <= xb + 1e-9 and min(ya, yb) - 1e-9 <= y <= max(ya, yb) + 1e-9:
                if n in inbox:
                    raise Violation('latex:overlap', 'two boxes share node %s' % n)
                inbox[n] = c
                c.nodes.setdefault(int(y), []).append(n)
        for w in range(int(min(ya, yb)), int(max(ya, yb)) + 1):
            if w not in c.nodes:
                continue            # no such wire
            c.on[w] = 'box'
            c.x[w] = (xa, xb)
        for w in c.nodes:
            c.nodes[w].sort(key=lambda n: d.nodes[n][1])
        comps.append(c)
    sym = {}
    for n, (style, x, y, content) in d.nodes.items():
        if n in inbox:
            of[n] = inbox[n]
            continue
        c = Comp()
        of[n] = c
        comps.append(c)
        if style == 'xstyle' and 'frac' in content:
            c.half = 'dagger' if 'dagger' in content else 'plain'
            if '{{' in content:
                raise Violation('latex:unexpanded', 'content %r' % content)
            c.half_y = y
            continue
        s = {'xstyle': 'x', 'phase': 'phase', 'swapstyle': 'swap', 'measure': 'measure'}.get(style)
        if style == 'none':
            s = 'alloc' if 'Ket' in content else 'end'
        if s is None:
            s = style
        if s != 'alloc' and content:
            raise Violation('latex:content', 'a %s symbol contains %r' % (s, content))
        if abs(y - round(y)) > 1e-9:
            raise Violation('latex:off-wire', 'node %s lies at y=%s' % (n, y))
        c.on[int(y)] = s
        c.x[int(y)] = (x, x)
        c.nodes[int(y)] = [n]
        c.content = content
    parent = {id(c): c for c in comps}

    def find(c):
        while parent[id(c)] is not c:
            c = parent[id(c)]
        return c
    links = []
    mids = {n for n in d.nodes if of[n].half}
    for a, b, kind, st in d.edges:
        if kind != 'edge' or a == b:
            continue
        ya, yb = d.nodes[a][2], d.nodes[b][2]
        ca, cb = find(of[a]), find(of[b])
        if ya == yb and a not in mids and b not in mids:
            links.append((a, b, st))
        else:
            if abs(d.nodes[a][1] - d.nodes[b][1]) > 1e-9:
                raise Violation('latex:slanted', 'a vertical connection is slanted: %s' % st[:200])
            if ca is not cb:
                parent[id(cb)] = ca
                for w in cb.on:
                    if w in ca.on:
                        raise Violation('latex:connects-same-wire', 'one drawn gate has two symbols on wire %d' % w)
                ca.on.update(cb.on)
                ca.x.update(cb.x)
                ca.nodes.update(cb.nodes)
                ca.label = ca.label if ca.label is not None else cb.label
                ca.half = ca.half or cb.half
                ca.half_y = cb.half_y if ca.half_y is None else ca.half_y
    roots = [c for c in comps if find(c) is c]
    for c in roots:
        ends = [w for w in c.on if c.on[w] == 'swap']
        if c.half and ends and not min(ends) < c.half_y < max(ends):
            raise Violation('latex:midpoint', 'the 1/2 of the gate on %s is drawn at %s' % (c.on, c.half_y))
    # a control between the ends of a swap lies on their connection
    for c in list(roots):
        if list(c.on.values()) == ['phase']:
            w, = c.on
            for o in roots:
                if o is not c and 'swap' in o.on.values() and min(o.on) < w < max(o.on) and w not in o.on and abs(o.x[min(o.on)][0] - c.x[w][0]) < 1e-9:
                    o.on.update(c.on)
                    o.x.update(c.x)
                    o.nodes.update(c.nodes)
                    roots.remove(c)
                    break
    return roots, links


def latex_name(gate):
    try:
        return gate.tex_str()
    except AttributeError:
        return str(gate)


def want(cmd, wire):
    """Expected symbols of a command: ({wire: symbol}, label, half)."""
    import projectq.ops as o
    sizes, t, c, cs = cmd_parts(cmd)
    k = cmd_kind(cmd)
    t, c = [wire[x] for x in t], [wire[x] for x in c]
    if k == 'alloc':
        return {t[0]: 'alloc'}, None, None
    if k == 'dealloc':
        return {t[0]: 'end'}, None, None
    if k == 'measure':
        return {x: 'measure' for x in t}, None, None
    g = cmd.gate
    ph = {x: 'phase' for x in c}
    if g == o.X:
        return dict(ph, **{t[0]: 'x'}) if False else {**ph, t[0]: 'x'}, None, None
    if g == o.Z and c:
        return {**ph, t[0]: 'phase'}, None, None
    if g == o.Swap:
        return {**ph, t[0]: 'swap', t[1]: 'swap'}, None, None
    if g == o.SqrtSwap or g == o.get_inverse(o.SqrtSwap):
        return {**ph, t[0]: 'swap', t[1]: 'swap'}, None, 'plain' if g == o.SqrtSwap else 'dagger'
    on = {w: 'box' for w in sorted(wire.values()) if min(t) <= w <= max(t)}
    for w in c:
        if not min(t) <= w <= max(t):
            on[w] = 'phase'
    return on, latex_name(g), None


def line_kinds(cmds, wire, init_quantum):
    """For every command, whether the wires it acts on continue as classical (C), quantum (Q) or either (?)."""
    import projectq.ops as o
    now, out = {}, []
    for cmd in cmds:
        sizes, t, c, cs = cmd_parts(cmd)
        t, c = [wire[x] for x in t], [wire[x] for x in c]
        k, g = cmd_kind(cmd), cmd.gate
        every = [now.get(w) for w in t + c]
        new = 'Q' if 'Q' in every else '?' if '?' in every else 'C'
        if k == 'alloc':
            now[t[0]] = 'Q' if init_quantum else 'C'
        elif k == 'measure':
            for w in t:
                now[w] = 'C'
        elif k == 'dealloc':
            pass
        elif g == o.X:
            now[t[0]] = new
        elif g == o.Z and c:
            pass
        elif g == o.Swap and not c:
            now[t[0]], now[t[1]] = now[t[1]], now[t[0]]
        elif g == o.Swap:
            if now[t[0]] != 'C' or now[t[1]] != 'C' or new != 'C':
                now[t[0]] = now[t[1]] = new
        elif g == o.SqrtSwap or g == o.get_inverse(o.SqrtSwap):
            now[t[0]] = now[t[1]] = 'Q'
        elif g in (o.Y, o.Z, o.S, o.T, o.Sdag, o.Tdag) or type(g) in (o.Rz, o.R, o.Ph):
            for w in t:
                now[w] = 'Q' if now[w] == 'Q' else '?'
        else:
            for w in t:
                now[w] = 'Q'
        out.append({w: now[w] for w in t + c})
    return out


def verify_latex(ctx, tex, cmds, wire, parallel=True, ordered=False, lines=None):
    d = parse(tex)
    comps, links = components(d)
    wires = {}
    for c in comps:
        for w in c.on:
            wires.setdefault(w, []).append(c)
    for w, l in wires.items():
        l.sort(key=lambda c: c.x[w])
        for a, b in zip(l, l[1:]):
            if not a.x[w][1] < b.x[w][0] + 1e-9 or a.x[w] == b.x[w]:
                raise Violation('latex:overlap', 'two symbols overlap on wire %d: %s at %s and %s at %s' % (w, a.on, a.x[w], b.on, b.x[w]))
    for c in comps:
        if not c.on:
            raise Violation('latex:stray', 'a midpoint symbol belongs to no gate')
        if len(c.on) > 1:
            x = [(c.x[w][0] + c.x[w][1]) / 2 for w in c.on]
            if max(x) - min(x) > 1e-9:
                raise Violation('latex:slanted', 'one gate is drawn at x=%s' % x)
            for w in range(min(c.on), max(c.on) + 1):
                for o in wires.get(w, []):
                    if o is not c and o.x[w][0] - 1e-9 <= x[0] <= o.x[w][1] + 1e-9:
                        raise Violation('latex:overlap', '%s on wire %d at %s lies on the connection of another gate %s at %s' % (o.on, w, o.x[w], c.on, x[0]),
                                        program=[cmd_repr(z) for z in cmds])
    # every command is drawn once, and in program order on each of its wires
    pool = {}
    for c in comps:
        pool.setdefault((tuple(sorted(c.on.items())), c.label, c.half), []).append(c)
    for l in pool.values():
        l.sort(key=lambda c: c.x[min(c.on)])
    xs, of = [], {}
    for i, cmd in enumerate(cmds):
        on, label, half = want(cmd, wire)
        l = pool.get((tuple(sorted(on.items())), label, half))
        if not l:
            raise Violation('latex:missing', 'command %d %s: %s %s is not drawn' % (i, cmd_repr(cmd), on, label or ''), program=[cmd_repr(x) for x in cmds],
                            drawn=[[sorted(c.on.items()), c.label] for c in comps])
        c = l.pop(0)
        of[id(c)] = i
        xs.append(min(c.x[w][0] for w in on))
        ctx.count('latex_symbols')
    for k, l in pool.items():
        if l:
            raise Violation('latex:surplus', '%s is drawn but was never executed' % (k,), program=[cmd_repr(x) for x in cmds])
    acts = [{wire[x] for x in sum(cmd_parts(cmd)[1:3], [])} for cmd in cmds]
    for w, l in wires.items():
        seq = [of[id(c)] for c in l if w in acts[of[id(c)]]]
        if seq != sorted(seq):
            raise Violation('latex:order-on-wire', 'on wire %d the commands are drawn in the order %s' % (w, seq), program=[cmd_repr(x) for x in cmds])
    # wires connect neighbouring symbols
    seen = {}
    for a, b, st in links:
        p = tuple(sorted((a, b), key=lambda n: d.nodes[n][1]))
        seen[p] = seen.get(p, 0) + 1
    need, may = set(), set()
    for w, l in wires.items():
        for a, b in zip(l, l[1:]):
            if b.on[w] != 'alloc':
                (need if w in acts[of[id(a)]] and a.on[w] != 'end' else may).add((a.nodes[w][-1], b.nodes[w][0]))
    for p in need:
        if p not in seen:
            raise Violation('latex:wire-gap', 'nodes %s and %s are not connected' % p)
        if seen[p] > 2:
            raise Violation('latex:wire-twice', 'nodes %s and %s are connected %d times' % (p + (seen[p],)))
    kinds = line_kinds(cmds, wire, lines['init_quantum'])
    for w, l in wires.items():
        kind = None
        for a, b in zip(l, l[1:]):
            if w in acts[of[id(a)]]:
                kind = kinds[of[id(a)]][w]
            n = seen.get((a.nodes[w][-1], b.nodes[w][0]))
            if n is None or kind in (None, '?') or a.on[w] == 'end' or b.on[w] == 'alloc':
                continue
            if n != (2 if kind == 'C' and lines['double_classical'] else 1):
                raise Violation('latex:line-kind', 'wire %d is drawn with %d line(s) between %s and %s although it is %s there' % (
                    w, n, a.on, b.on, 'classical' if kind == 'C' else 'quantum'), program=[cmd_repr(x) for x in cmds])
            ctx.count('classical_lines' if kind == 'C' else 'quantum_lines')
    for p in seen:
        if p not in need and p not in may:
            raise Violation('latex:wire-surplus', 'nodes %s and %s are connected but are not neighbours' % p)
    if not parallel:
        for a, b in zip(sorted(xs), sorted(xs)[1:]):
            if not a < b - 1e-12:
                raise Violation('latex:parallel', 'two gates are drawn in parallel')
        if ordered and xs != sorted(xs):
            raise Violation('latex:order', 'the gates are not drawn in the order of the program', xs=xs)
    ctx.count('latex_drawings')
    return d


def settings_variant(rng):
    from projectq.backends._circuits._to_latex import get_default_settings
    s = get_default_settings()
    if rng.random() < .6:
        return s, True
    s['gate_shadow'] = rng.random() < .5
    s['lines']['double_classical'] = rng.random() < .5
    s['lines']['init_quantum'] = rng.random() < .7
    s['control'] = dict(size=rng.choice([.1, .2]), shadow=rng.random() < .5)
    s['gates']['AllocateQubitGate']['draw_id'] = rng.random() < .5
    for g in list(s['gates']) + ['Plain', 'Tex', 'YGate', 'ZGate', 'Rzz', 'MatrixGate']:
        if rng.random() < .3:
            e = s['gates'].setdefault(g, {})
            for k in ('width', 'offset', 'pre_offset', 'height'):
                if rng.random() < .5 and (k in e or g not in ('MeasureGate', 'XGate')):
                    e[k] = round(rng.uniform(.05, 1.5), 2)
    zero = rng.random() < .4
    s['gates']['AllocateQubitGate']['allocate_at_zero'] = zero
    return s, not zero


def case_latex(ctx, rng, idx):
    from projectq import MainEngine
    from projectq.backends import CircuitDrawer
    from projectq.cengines import DummyEngine
    n = rng.choice([1, 2, 3, 4, 5, 6, 6, 9])
    default = rng.randint(0, 1)
    dr = CircuitDrawer(default_measure=default)
    middle = rng.random() < .4
    tap = Tap()
    be = DummyEngine(save_commands=True)
    mapped = rng.random() < .4
    engines = ([Shuffle(rng, n)] if mapped else []) + [tap] + ([dr] if middle else [])
    loc = None
    if not mapped and rng.random() < .5:
        # ids are handed out from 0; deleted ids are not re-used
        m = n + 40
        p = list(range(m))
        rng.shuffle(p)
        loc = dict(enumerate(p))
        before = dict(loc)
        dr.set_queue = None
        dr.set_qubit_locations(loc)
    st, zero_ok = settings_variant(rng)
    with open('settings.json', 'w') as f:
        json.dump(st, f)
    if rng.random() < .3:
        from vlib.pq import notes
        engines.insert(rng.choice([0, engines.index(tap)]), notes(rng))
    eng = MainEngine(be if middle else dr, engines, verbose=True)

    def wires(cmds):
        """Row of every qubit number, from the document: rows are ordered as the locations."""
        ids = []
        for c in cmds:
            if cmd_kind(c) == 'alloc' and c.qubits[0][0].id not in ids:
                ids.append(c.qubits[0][0].id)
        return ids

    def draw(final):
        cmds = [c for c in tap.cmds if cmd_kind(c) != 'flush']
        ids = wires(cmds)
        ordered = rng.random() < .4
        par = rng.random() < .6
        if not ids:
            return
        tex = dr.get_latex(ordered=ordered, draw_gates_in_parallel=par)
        if dr.get_latex(ordered=ordered, draw_gates_in_parallel=par) != tex:
            raise Violation('latex:not-repeatable', 'drawing twice gives two drawings')
        rows = {}
        order = sorted(ids, key=lambda i: (loc[i] if loc else i))
        d = parse(tex)
        used = sorted({int(y) for s, x, y, c in d.nodes.values() if s == 'none' and 'Ket' in c})
        if len(used) != len(ids):
            raise Violation('latex:wires', '%d qubits, %d wires' % (len(ids), len(used)))
        for q, w in zip(order, used):
            rows[q] = w
        strict = not par and zero_ok
        verify_latex(ctx, tex, cmds, rows, parallel=not strict, ordered=ordered, lines=st['lines'])
        if st['gates']['AllocateQubitGate']['draw_id']:
            for s, x, y, c in d.nodes.values():
                if s == 'none' and 'Ket' in c:
                    got = re.findall(r'\{(\d+)\}\}\}?\$$', c)
                    q = [k for k in rows if rows[k] == int(y)]
                    if [str(q[0])] != got:
                        raise Violation('latex:draw-id', 'wire of qubit %s is labelled %r' % (q, c))
                    ctx.count('labels_checked')
        n_alloc = sum(cmd_kind(c) == 'alloc' for c in cmds)
        if n_alloc > len(ids):
            ctx.count('reused_wires')
        ctx.sig('latex', idx, len(cmds), ordered, par)

    live = program(ctx, rng, eng, n, 30, False, lambda i: draw(False) if rng.random() < .4 else None)
    try:
        eng.flush()
        draw(True)
        draw(True)
        check_results(ctx, tap, middle, be, default, eng)
        if loc is not None and loc != before:
            raise Violation('latex:locations-changed', 'the caller\'s dictionary was changed')
    finally:
        for q in live:
            q.id = -1
        os.remove('settings.json')


def check_results(ctx, tap, middle, be, default, eng):
    if middle:
        got, exp = be.received_commands, [c for c in tap.cmds]
        got, exp = [cmd_repr(c) for c in got], [cmd_repr(c) for c in exp]
        if got != exp:
            raise Violation('not-forwarded', 'the next engine saw another stream', got=got[-10:], want=exp[-10:])
    else:
        from projectq.cengines import NotYetMeasuredError
        from projectq.meta import LogicalQubitIDTag
        from projectq.types import WeakQubitRef
        for c in tap.cmds:
            if cmd_kind(c) == 'measure':
                q = c.qubits[0][0]
                lid = q.id
                for t in c.tags:
                    if isinstance(t, LogicalQubitIDTag):
                        lid = t.logical_qubit_id
                try:
                    v = eng.get_measurement_result(WeakQubitRef(eng, lid))
                except NotYetMeasuredError:
                    v = None
                if v is None or bool(v) != bool(default):
                    raise Violation('result', 'measuring qubit %s: recorded %r, expected %r' % (lid, v, default))


# -------------------------------------------------------------------------------------------------------- matplotlib
def mpl_read(fig, axes, params):
    """Read the figure back: {x: [(wires, symbol, label)]}, vertical spans, y of the wires."""
    texts = [t for t in axes.texts]
    ys, cols, spans = None, [], []
    wide = []       # (left, right, wires) of the symbols drawn
    for c in axes.collections:
        lab = c.get_label()
        paths = c.get_paths()
        ext = [p.get_extents() for p in paths]
        if lab == 'qubit_wires':
            if ys is not None:
                raise Violation('mpl:wires', 'two sets of wires')
            ys = sorted(e.y0 for e in ext)
            wx = (min(e.x0 for e in ext), max(e.x1 for e in ext))
        elif lab == 'NOT':
            e = ext[0]
            wide.append((e.x0, e.x1, [(e.y0 + e.y1) / 2]))
            cols.append(((e.x0 + e.x1) / 2, [(e.y0 + e.y1) / 2], 'x', None))
        elif lab == 'CZ':
            for e in ext[:2]:
                cols.append(((e.x0 + e.x1) / 2, [(e.y0 + e.y1) / 2], 'ctl', None))
            spans.append(((ext[2].x0 + ext[2].x1) / 2, ext[2].y0, ext[2].y1))
        elif lab == 'SWAP':
            v = ext[-1]
            spans.append(((v.x0 + v.x1) / 2, v.y0, v.y1))
            cs = sorted({(round((e.x0 + e.x1) / 2, 6), round((e.y0 + e.y1) / 2, 6)) for e in ext[:-1]})
            for x, y in cs:
                cols.append((x, [y], 'swap', None))
            wide.append((min(e.x0 for e in ext), max(e.x1 for e in ext), [y for _, y in cs]))
        elif lab == 'Measure':
            e = ext[0]
            wide.append((e.x0, e.x1, [(e.y0 + e.y1) / 2]))
            cols.append(((e.x0 + e.x1) / 2, [(e.y0 + e.y1) / 2], 'measure', None))
        else:
            raise Violation('mpl:unknown', 'unknown drawing element %r' % lab)
    labels = {}
    boxes = [p for p in axes.patches if type(p).__name__ == 'Rectangle']
    for t in texts:
        x, y = t.get_position()
        if abs(x - params['x_offset']) < 1e-9:
            labels[y] = t.get_text()
            continue
        mine = [b for b in boxes if abs(b.get_x() + b.get_width() / 2 - x) < 1e-9 and abs(b.get_y() + b.get_height() / 2 - y) < 1e-9]
        if len(mine) != 1:
            raise Violation('mpl:box', 'the text %r has %d boxes' % (t.get_text(), len(mine)))
        b = mine[0]
        boxes.remove(b)
        on = [w for w in ys if b.get_y() < w < b.get_y() + b.get_height()]
        wide.append((b.get_x(), b.get_x() + b.get_width(), on))
        cols.append((x, on, 'box', t.get_text()))
    if boxes:
        raise Violation('mpl:box', '%d empty boxes' % len(boxes))
    for p in axes.patches:
        if type(p).__name__ == 'Circle':
            cols.append((p.center[0], [p.center[1]], 'ctl', None))
    for line in axes.lines:
        xd, yd = line.get_xdata(), line.get_ydata()
        if abs(xd[0] - xd[-1]) > 1e-9:
            raise Violation('mpl:slanted', 'a connection is slanted')
        spans.append((xd[0], min(yd), max(yd)))
    for y in ys or ():
        on = sorted((lo, hi) for lo, hi, w in wide if any(abs(v - y) < 1e-6 for v in w))
        for (_, a), (b, _) in zip(on, on[1:]):
            if b < a - 1e-6:
                raise Violation('mpl:covered', 'two gates on one wire are drawn on top of each other: one ends at x=%.4g, the next begins at %.4g' % (a, b), params=params)
    return ys, wx, cols, spans, labels


def mpl_label_ok(label, gate):
    s = str(gate)
    m = re.match(r'^([A-Za-z]+)\((-?[\d.e-]+)\)(.*)$', s, re.S)
    if m:
        try:
            return label == '%s(%.2f)%s' % (m.group(1), float(m.group(2)), m.group(3))
        except ValueError:
            pass
    return label.split('(')[0] == s.split('(')[0] and ('(' in s or label == s)


def verify_mpl(ctx, fig, axes, cmds, pos, params, qlabels):
    import projectq.ops as o
    ys, wx, cols, spans, labels = mpl_read(fig, axes, params)
    prog = [cmd_repr(c) for c in cmds]
    if len(ys) != len(pos):
        raise Violation('mpl:wires', '%d qubits, %d wires' % (len(pos), len(ys)))

    def wire(y):
        w = min(range(len(ys)), key=lambda i: abs(ys[i] - y))
        if abs(ys[w] - y) > 1e-6:
            raise Violation('mpl:off-wire', 'an element lies at y=%g, wires at %s' % (y, ys))
        return w
    for q, w in pos.items():
        if labels.get(ys[w]) != qlabels[q]:
            raise Violation('mpl:wire-label', 'wire %d of qubit %s is labelled %r' % (w, q, labels.get(ys[w])))
    comps = []          # [x, {wire: sym}, label]
    for x, yy, s, lab in cols:
        if not wx[0] - 1e-6 <= x <= wx[1] + 1e-6:
            raise Violation('mpl:off-wire', 'an element lies at x=%g, the wires extend over %s' % (x, wx))
        comps.append([x, {wire(y): s for y in yy}, lab])
    for x, lo, hi in spans:
        a, b = wire(lo), wire(hi)
        mine = [c for c in comps if abs(c[0] - x) < 1e-6 and any(a <= w <= b for w in c[1])]
        rest = [c for c in comps if not any(c is m for m in mine)]
        on, lab = {}, None
        for c in mine:
            for w, s in c[1].items():
                if w in on and not (on[w] == s == 'ctl'):
                    raise Violation('mpl:overlap', 'symbols %s and %s at the same place on wire %d' % (on[w], s, w), program=prog)
                on[w] = s
            if c[2] is not None:
                if lab is not None:
                    raise Violation('mpl:overlap', 'gates %r and %r at the same place on the connecting line of a gate' % (lab, c[2]), program=prog)
                lab = c[2]
        comps = rest + [[x, on, lab]]
    wires = {}
    for c in comps:
        for w in c[1]:
            wires.setdefault(w, []).append(c)
    for w in wires:
        wires[w].sort(key=lambda c: c[0])
        for a, b in zip(wires[w], wires[w][1:]):
            if b[0] - a[0] < 1e-6:
                raise Violation('mpl:overlap', 'two gates at the same place on wire %d' % w, program=prog)
    at = {w: 0 for w in wires}
    for i, cmd in enumerate(cmds):
        sizes, t, c, cs = cmd_parts(cmd)
        t, c = [pos[x] for x in t], [pos[x] for x in c]
        g = cmd.gate
        name = str(g)
        ctl = {w: 'ctl' for w in c}
        label = False
        if name == 'Z' and len(c) == 1:
            on = {**ctl, t[0]: 'ctl'}
        elif name == 'X':
            on = {**ctl, t[0]: 'x'}
        elif name == 'Swap':
            on = {**ctl, t[0]: 'swap', t[1]: 'swap'}
        elif cmd_kind(cmd) == 'measure':
            on = {t[0]: 'measure'}
        else:
            on = {**ctl, **{w: 'box' for w in t}}
            label = True
        got = None
        for w in on:
            l = wires.get(w, [])
            if at.get(w, 0) >= len(l):
                raise Violation('mpl:missing', 'command %d %s is not drawn on wire %d' % (i, cmd_repr(cmd), w), program=prog)
            g2 = l[at[w]]
            if got is not None and g2 is not got:
                raise Violation('mpl:wrong-symbol', 'command %d %s is drawn as several gates %s, %s' % (i, cmd_repr(cmd), got[1], g2[1]), program=prog)
            got = g2
        if got[1] != on:
            raise Violation('mpl:wrong-symbol', 'command %d %s: expected %s, drawn %s' % (i, cmd_repr(cmd), on, got[1]), program=prog)
        if label and not mpl_label_ok(got[2], g) or not label and got[2] is not None:
            raise Violation('mpl:label', 'command %d %s is labelled %r' % (i, cmd_repr(cmd), got[2]))
        for w in on:
            at[w] += 1
        ctx.count('mpl_symbols')
    for w in wires:
        if at[w] != len(wires[w]):
            raise Violation('mpl:surplus', 'wire %d shows %s which was never executed' % (w, wires[w][at[w]][1]), program=prog)
    ctx.count('mpl_drawings')


def case_mpl(ctx, rng, idx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    warnings.simplefilter('ignore')
    from projectq import MainEngine
    from projectq.backends import CircuitDrawerMatplotlib
    from projectq.cengines import DummyEngine
    n = rng.randint(1, 8)
    wide = rng.random() < .5                    # without wide gates, every drawing order is possible
    default = rng.randint(0, 1)
    dr = CircuitDrawerMatplotlib(default_measure=default)
    middle = rng.random() < .4
    tap = Tap()
    be = DummyEngine(save_commands=True)
    mapped = rng.random() < .4
    engines = ([Shuffle(rng, n)] if mapped else []) + [tap] + ([dr] if middle else [])
    if rng.random() < .3:
        from vlib.pq import notes
        engines.insert(rng.choice([0, engines.index(tap)]), notes(rng))
    eng = MainEngine(be if middle else dr, engines, verbose=True)

    def draw():
        cmds = [c for c in tap.cmds if cmd_kind(c) not in ('flush', 'alloc', 'dealloc')]
        ids = []
        for c in tap.cmds:
            if cmd_kind(c) == 'alloc' and c.qubits[0][0].id not in ids:
                ids.append(c.qubits[0][0].id)
        if not ids:
            return
        kw, order, ql = {}, None, None
        if rng.random() < .5:
            p = list(range(len(ids)))
            rng.shuffle(p)
            order = dict(zip(ids, p))
        pos = order
        if pos is None:
            pos = {q: len(ids) - 1 - i for i, q in enumerate(sorted(ids))}
        if rng.random() < .4:
            ql = {q: 'q%d' % q for q in ids}
        params = dict(x_offset=.05)
        if rng.random() < .4:
            kw = {k: v for k, v in dict(fontsize=rng.choice([6., 10., 24., 40.]), column_spacing=rng.choice([.2, .7]), control_radius=.02, labels_margin=1.3, linewidth=2.,
                                        not_radius=rng.choice([.04, .1]), gate_offset=rng.choice([.02, .04, .1]), mgate_width=rng.choice([.06, .15, .3]),
                                        swap_delta=rng.choice([.03, .1]), x_offset=.06, wire_height=rng.choice([1.5, 1.3, 2.1])).items() if rng.random() < .4}
            params.update(kw)
        refusable = any(len(cmd_parts(c)[1]) > 1 and str(c.gate) != 'Swap'
                        and max(pos[x] for x in cmd_parts(c)[1]) - min(pos[x] for x in cmd_parts(c)[1]) + 1 != len(cmd_parts(c)[1]) for c in cmds)
        before = dict(order) if order else None
        try:
            fig, axes = dr.draw(qubit_labels=ql, drawing_order=order, **kw)
        except RuntimeError:
            if refusable:
                ctx.count('refused')
                plt.close('all')
                return
            raise
        if refusable:
            raise Violation('mpl:non-neighbours', 'a wide gate on wires that are not neighbours was drawn')
        try:
            verify_mpl(ctx, fig, axes, cmds, pos, params, ql or {q: r'$|0\rangle$' for q in ids})
        finally:
            plt.close('all')
        if order is not None and order != before:
            raise Violation('mpl:order-changed', 'the caller\'s dictionary was changed')
        ctx.sig('mpl', idx, len(cmds))
        if sum(cmd_kind(c) == 'alloc' for c in tap.cmds) > len(ids):
            ctx.count('reused_wires')
    live = program(ctx, rng, eng, n, rng.choice([8, 16, 30]), True, lambda i: draw() if rng.random() < .2 else None, wide)
    try:
        eng.flush()
        draw()
        check_results(ctx, tap, middle, be, default, eng)
    finally:
        for q in live:
            q.id = -1
        plt.close('all')


JOBS = dict(
    latex=Job(case_latex, 1500, 20000, shards=3),
    mpl=Job(case_mpl, 240, 3000, shards=5),
)
