"""C19: qubit operator algebra equals matrix algebra."""
import copy

import numpy as np

from vlib import ref
from vlib.harness import Job, Violation
from vlib.pq import RefBackend

RULE = ('random operators (0-8 terms on up to four qubits with indices up to 60, written as tuples or strings in any order, int / float / '
        'complex / numpy coefficients of any size) driven through random sequences of all algebra operations; a shadow matrix follows every object, every '
        'intermediate object is compared with its matrix and all operands are checked for changes; malformed arguments are injected in between. Non-trivial '
        'by operation and number of terms')
ASSUMPTIONS = ['up to four distinct qubits per case', 'relative accuracy 1e-9 of the largest coefficient']
MIN = dict(operations=30000, operands_checked=30000, rejected=3000, isclose_checked=3000, applied=200)


def coeff(rng, unit=False):
    if unit:
        return rng.choice([1, -1, 1j, -1j, 1.0, complex(np.exp(1j * rng.uniform(0, 6))), complex(np.exp(1j * rng.choice([1e-8, -3e-7, 2e-6, 1e-4])))])
    c = rng.choice([1, -1, 2, 0.5, -0.25, 1j, -2j, 0, 0.0, 1e-14, 1e-9, 1e8, complex(.5, -.5), rng.uniform(-3, 3), complex(rng.uniform(-2, 2), rng.uniform(-2, 2)),
                    np.float64(rng.uniform(-1, 1)), np.complex128(complex(.25, rng.uniform(-1, 1))), complex(1.5, 1e-14), complex(0, 0)])
    return c


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.n = rng.randint(1, 4)
        self.idx = sorted(rng.sample(range(rng.choice([self.n, 6, 60]) if self.n <= 6 else 60), self.n)) if self.n <= 6 else []
        self.objs = []          # [operator, matrix, scale]
        self.log = []

    def term(self):
        rng = self.rng
        t = [(i, rng.choice('XYZ')) for i in self.idx if rng.random() < .6]
        rng.shuffle(t)
        return t

    def mat(self, term):
        m = np.eye(1 << self.n, dtype=complex)
        for i, p in term:
            ops = [ref.I2] * self.n
            ops[self.idx.index(i)] = ref.PAULI[p]
            m = m @ ref.kron_le(ops)
        return m

    def fresh(self, unit=False):
        from projectq.ops import QubitOperator
        rng = self.rng
        if rng.random() < .1 and not unit:
            return [QubitOperator(), np.zeros((1 << self.n, 1 << self.n), complex), 0.]
        t, c = self.term(), coeff(rng, unit)
        arg = tuple(t) if rng.random() < .5 else ' '.join('%s%d' % (p, i) for i, p in t)
        if c == 1 and rng.random() < .5:
            op = QubitOperator(arg)
        else:
            op = QubitOperator(arg, c)
        return [op, complex(c) * self.mat(t), abs(c)]

    def operand(self):
        return self.rng.choice(self.objs) if self.objs and self.rng.random() < .7 else self.fresh()

    def check(self, o, what):
        op, m, s = o
        got = np.zeros_like(m)
        for t, c in op.terms.items():
            if [i for i, _ in t] != sorted({i for i, _ in t}):
                raise Violation('term-form', '%s: term %s is not a sorted product of single Paulis' % (what, t), log=self.log[-12:])
            if any(i not in self.idx for i, _ in t):
                raise Violation('term-index', '%s: term %s acts outside qubits %s' % (what, t, self.idx), log=self.log[-12:])
            got += complex(c) * self.mat(t)
        tol = 1e-9 * max(s, 1e-12) + 1e-300
        d = np.abs(got - m).max()
        if not d <= tol:
            raise Violation('matrix:' + what.split(' ')[0], '%s: operator %r differs from the matrix result by %.3g (allowed %.3g)' % (what, str(op)[:300], d, tol),
                            log=self.log[-12:])


def snapshot(op):
    return [(t, complex(c), type(c)) for t, c in op.terms.items()]


def case_algebra(ctx, rng, idx):
    from projectq.ops import QubitOperator
    w = World(ctx, rng)
    ctx.describe(dict(qubits=w.idx))
    for _ in range(rng.choice([10, 25, 40])):
        a = w.operand()
        b = w.operand()
        if not any(o is a for o in w.objs):
            w.objs.append(a)
            w.check(a, 'create')
        if len(w.objs) > 6:
            w.objs.pop(rng.randrange(len(w.objs)))
        k = coeff(rng)
        if abs(complex(k)) > 1e6 and a[2] > 1e12:
            k = 2
        op = rng.choice(['add', 'sub', 'mul', 'smul', 'rsmul', 'neg', 'div', 'iadd', 'isub', 'imul', 'ismul', 'idiv', 'compress', 'copy', 'isclose', 'eq',
                         'selfadd', 'selfsub', 'selfmul', 'str', 'bad', 'inverse', 'merge'])
        if op in ('mul', 'imul', 'selfmul') and (len(a[0].terms) * len(b[0].terms) > 600 or a[2] * b[2] > 1e60):
            continue
        if op == 'selfmul' and a[2] > 1e30:
            continue
        before_a, before_b = snapshot(a[0]), snapshot(b[0])
        w.log.append('%s (%s) (%s) %r' % (op, str(a[0])[:150].replace('\n', ''), str(b[0])[:150].replace('\n', ''), k))
        res, inplace = None, False
        if op == 'add':
            res = [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
        elif op == 'sub':
            res = [a[0] - b[0], a[1] - b[1], a[2] + b[2]]
        elif op == 'mul':
            res = [a[0] * b[0], a[1] @ b[1], a[2] * b[2]]
        elif op == 'smul':
            res = [a[0] * k, a[1] * complex(k), a[2] * abs(k)]
        elif op == 'rsmul':
            res = [k * a[0], a[1] * complex(k), a[2] * abs(k)]
        elif op == 'neg':
            res = [-a[0], -a[1], a[2]]
        elif op == 'div' and abs(complex(k)) > 1e-10:
            res = [a[0] / k, a[1] / complex(k), a[2] / abs(k)]
        elif op in ('iadd', 'isub', 'imul', 'ismul', 'idiv'):
            x = a[0]
            inplace = True
            if op == 'iadd':
                x += b[0]
                new = [x, a[1] + b[1], a[2] + b[2]]
            elif op == 'isub':
                x -= b[0]
                new = [x, a[1] - b[1], a[2] + b[2]]
            elif op == 'imul':
                x *= b[0]
                new = [x, a[1] @ b[1], a[2] * b[2]]
            elif op == 'ismul':
                x *= k
                new = [x, a[1] * complex(k), a[2] * abs(k)]
            else:
                k = k if abs(complex(k)) > 1e-10 else 4
                x /= k
                new = [x, a[1] / complex(k), a[2] / abs(k)]
            if x is not a[0]:
                raise Violation('inplace-identity', '%s made a new object' % op, log=w.log[-5:])
            same = a is b
            a[:] = new
            w.check(a, op)
            if same:
                before_b = None
        elif op == 'selfadd':
            x = a[0]
            x += x
            a[:] = [x, a[1] * 2, a[2] * 2]
            inplace = True
            w.check(a, op)
        elif op == 'selfsub':
            x = a[0]
            x -= x
            a[:] = [x, a[1] * 0, a[2]]
            inplace = True
            w.check(a, op)
            if any(abs(c) for c in x.terms.values()):
                raise Violation('selfsub', 'x -= x leaves %s' % x)
        elif op == 'selfmul':
            x = a[0]
            x *= x
            a[:] = [x, a[1] @ a[1], a[2] ** 2]
            inplace = True
            w.check(a, op)
        elif op == 'compress':
            tol = rng.choice([1e-12, 0.0, .3, 1e-6])
            want = {}
            for t, c in a[0].terms.items():
                z = complex(c)
                if abs(z.imag) <= tol:
                    z = complex(z.real)
                if abs(z) > tol:
                    want[t] = z
            c2 = copy.deepcopy(a[0])
            r = c2.compress(abs_tol=tol) if tol != 1e-12 or rng.random() < .5 else c2.compress()
            if {t: complex(c) for t, c in c2.terms.items()} != want or r is not None:
                raise Violation('compress', 'compress(%g) of %s gives %s' % (tol, a[0], c2))
            if any(isinstance(c, complex) and c.imag == 0 for c in c2.terms.values()):
                raise Violation('compress', 'compress(%g) of %s leaves a complex type for a real coefficient' % (tol, a[0]))
        elif op == 'copy':
            c2 = copy.deepcopy(a[0])
            c2 += b[0]
            c2 *= 3
        elif op == 'isclose':
            isclose(ctx, rng, w, a)
        elif op == 'eq':
            equal = {t: complex(c) for t, c in a[0].terms.items()} == {t: complex(c) for t, c in b[0].terms.items()}
            if (a[0] == b[0]) != equal or (a[0] != b[0]) == equal:
                raise Violation('equality', '%s == %s gives %s' % (a[0], b[0], a[0] == b[0]))
            c2 = QubitOperator()
            items = list(a[0].terms.items())
            rng.shuffle(items)
            for t, c in items:
                c2 += QubitOperator(t, c)
            if not all(abs(c) for c in a[0].terms.values()):
                pass
            elif not (c2 == a[0] and hash(c2) == hash(a[0])):
                raise Violation('equality:order', 'the same terms in another order: %s and %s, equal %s' % (c2, a[0], c2 == a[0]))
            if a[0] == 5 or a[0] == None or a[0] == 'X0':       # noqa
                raise Violation('equality:types', '%s equals a number, None or a string' % a[0])
        elif op == 'str':
            text(a[0])
        elif op == 'inverse':
            inverse(w, a)
        elif op == 'merge':
            merge(w, a, b)
        elif op == 'bad':
            bad(ctx, rng, a[0])
        if res is not None:
            if res[0] is a[0] or res[0] is b[0] or res[0].terms is a[0].terms or res[0].terms is b[0].terms:
                raise Violation('shared', '%s returned (part of) an operand' % op)
            w.check(res, op)
            w.objs.append(res)
        if not inplace and snapshot(a[0]) != before_a:
            raise Violation('operand-changed', '%s changed its left operand to %s' % (op, a[0]), log=w.log[-5:])
        if before_b is not None and not (inplace and a is b) and snapshot(b[0]) != before_b:
            raise Violation('operand-changed', '%s changed its right operand to %s' % (op, b[0]), log=w.log[-5:])
        ctx.count('operands_checked', 2)
        ctx.count('operations')
        ctx.sig(op, len(a[0].terms), w.n)
    if idx < 2:
        ctx.sample(dict(log=w.log[:6]))


def isclose(ctx, rng, w, a):
    """Perturbs single coefficients clearly inside or outside the tolerance."""
    x = a[0]
    rel, ab = rng.choice([(1e-12, 1e-12), (1e-3, 1e-12), (1e-12, 1e-3), (.1, .01), (1e-6, 0.0)])
    y = copy.deepcopy(x)
    items = list(y.terms)
    if items and rng.random() < .25:
        # both tolerances of the same size: each of them counts on its own, not their sum
        t = rng.choice(items)
        c = abs(complex(y.terms[t]))
        if not 1e-6 < c < 1e6:
            return
        rel = rng.choice([1e-3, 1e-2])
        ab = rel * c * rng.choice([.9, 1, 1.1])
        f = rng.choice([.6, .8, 1.4, 1.7])
        y.terms[t] = complex(y.terms[t]) * (1 + 1j * f * max(ab / c, rel))
        want = f < 1
        for p, q in ((x, y), (y, x)):
            if p.isclose(q, rel_tol=rel, abs_tol=ab) != want:
                raise Violation('isclose', '%s isclose %s (rel %g abs %g) gives %s' % (p, q, rel, ab, not want))
            ctx.count('isclose_checked')
        return
    if items and rng.random() < .8:
        t = rng.choice(items)
        c = complex(y.terms[t])
        allowed = max(rel * abs(c), ab)
        f = rng.choice([.4, 2.5, -.4, -2.5, .4j, 2.5j])
        d = f * allowed
        if abs(c) > 1e9 * max(abs(d), 1e-300) * 1e3 or allowed == 0:
            return
        y.terms[t] = c + d
        # the tolerance is relative to the larger of the two
        big = max(rel * max(abs(c), abs(c + d)), ab)
        want = abs((c + d) - c) <= big
        if abs(abs((c + d) - c) - big) < .1 * big:
            return
    else:
        t = tuple(sorted((i, 'Y') for i in w.idx))
        if t in y.terms:
            return
        d = rng.choice([.5, 2]) * (ab or 1)
        y.terms[t] = d
        want = d <= ab
    kw = {} if (rel, ab) == (1e-12, 1e-12) else dict(rel_tol=rel, abs_tol=ab)
    for p, q in ((x, y), (y, x)):
        if p.isclose(q, **kw) != want:
            raise Violation('isclose', '%s isclose %s (rel %g abs %g) gives %s' % (p, q, rel, ab, not want))
        ctx.count('isclose_checked')
    if not x.isclose(x):
        raise Violation('isclose:self', str(x))


def text(op):
    """The printed form names every term with its coefficient."""
    s = str(op)
    if repr(op) != s:
        raise Violation('text', 'repr and str differ')
    if not op.terms:
        if s != '0':
            raise Violation('text', 'the zero operator prints %r' % s)
        return
    parts = s.split(' +\n')
    got = {}
    for p in parts:
        c, rest = p.split(' ', 1)
        t = () if rest == 'I' else tuple((int(x[1:]), x[0]) for x in rest.split())
        got[t] = complex(c.replace('np.float64(', '').replace(')', '').replace('(', ''))
    if got != {t: complex(c) for t, c in op.terms.items()}:
        raise Violation('text', '%r does not show the terms %s' % (s, op.terms))


def inverse(w, a):
    from projectq.ops import NotInvertible
    one = len(a[0].terms) == 1
    c = abs(complex(list(a[0].terms.values())[0])) if one else 0
    if one and abs(c - 1) < 1e-13:
        w.check([a[0].get_inverse(), np.linalg.inv(a[1]), 1.], 'inverse')
    elif not one or abs(c - 1) > 1e-3:
        try:
            r = a[0].get_inverse()
        except NotInvertible:
            return
        raise Violation('inverse', '%s has no unitary inverse but get_inverse gives %s' % (a[0], r))


def merge(w, a, b):
    from projectq.ops import NotMergeable
    try:
        r = a[0].get_merged(b[0])
    except NotMergeable:
        if len(a[0].terms) == 1 and len(b[0].terms) == 1 and abs(a[2] - 1) < 1e-12 and abs(b[2] - 1) < 1e-12:
            raise Violation('merge', 'unitary operators %s, %s do not merge' % (a[0], b[0]))
        return
    w.check([r, b[1] @ a[1], a[2] * b[2]], 'merge')


class Weird:
    pass


def bad(ctx, rng, op):
    from projectq.ops import QubitOperator
    from projectq.ops._qubit_operator import QubitOperatorError
    before = snapshot(op)

    def must(what, f, errs):
        try:
            r = f()
        except errs:
            ctx.count('rejected')
        else:
            raise Violation('accepted:' + what.split(':')[0], '%s gives %s' % (what, r))
        if snapshot(op) != before:
            raise Violation('rejected-but-changed', '%s changed the operand to %s' % (what, op))
    V = (ValueError, QubitOperatorError, TypeError)
    x = rng.choice(['1', None, [1], (1,), {}, Weird(), np.array([1., 2.])])
    must('coefficient: %r' % (x,), lambda: QubitOperator('X0', x), V)
    t = rng.choice([5, ['X0'], [(0, 'X')], 'X', 'A0', 'x1', 'I0', 'X-1', 'X0.5', 'X0Y1', '0X', 'X 0', 'X0,Y1', ((0, 'A'),), ((0, 'I'),), ((-1, 'X'),), ((.5, 'X'),), (('0', 'X'),),
                    ((0, 'X', 1),), ((0,),), (0, 'X'), ([0, 'X'],), ((0, 'x'),), ((0, 0),), ('X0',), ((0, 'X'), (1,)), ((0, 'X'), (1, 'B')), 1.5, {'X0': 1}, b'X0'])
    must('term: %r' % (t,), lambda: QubitOperator(t), V)
    y = rng.choice(['X0', None, [1], Weird(), ((0, 'X'),)])

    def inp(name):
        def f():
            z = op
            return getattr(z, name)(y) if not getattr(z, name)(y) is NotImplemented else (_ for _ in ()).throw(TypeError())
        return f
    for name in ('__imul__', '__mul__', '__rmul__', '__truediv__', '__itruediv__', '__iadd__', '__add__', '__isub__', '__sub__'):
        must('%s: %r' % (name, y), inp(name), TypeError)
    must('division: by an operator', lambda: op / QubitOperator('X0'), TypeError)
    must('addition: of a number', lambda: op + rng.choice([1, 0, 1.5]), TypeError)
    must('addition: to a number', lambda: rng.choice([1, 0, 1.5]) - op, TypeError)
    must('division: by zero', lambda: op / rng.choice([0, 0.0, 0j]), ZeroDivisionError)


def case_apply(ctx, rng, idx):
    """Applied as a gate: exactly the operator (with its phase) reaches the backend; anything else is refused."""
    from projectq import MainEngine
    from projectq.ops import QubitOperator
    from vlib.ref import State
    w = World(ctx, rng)
    width = max(w.idx) + 1 + rng.randint(0, 1)
    if width > 7:
        w.idx = list(range(w.n))
        width = w.n + rng.randint(0, 2)
    w.objs = []
    o = w.fresh(unit=rng.random() < .8)
    be = RefBackend(seed=idx)
    eng = MainEngine(backend=be, engine_list=[], verbose=True)
    reg = eng.allocate_qureg(width)
    from projectq.ops import H, Rz
    for q in reg:
        H | q
        Rz(rng.uniform(0, 3)) | q
    eng.flush()
    ids = [q.id for q in reg]
    before = be.state.reorder(ids).copy()
    nlog = len(be.log)
    unitary = len(o[0].terms) == 1 and abs(o[2] - 1) < 1e-13
    short = rng.random() < .15
    arg = reg[:len(reg) - 1] if short and len(reg) > 1 else reg
    need = max([i for t in o[0].terms for i, _ in t] + [0]) + 1
    arg2 = rng.choice([lambda: arg, lambda: (arg,)])()
    ctx.describe(dict(operator=str(o[0]), width=len(arg)))
    try:
        o[0] | arg2
    except (TypeError, ValueError) as e:
        if unitary and need <= len(arg):
            raise Violation('apply:refused', '%s on %d qubits: %s' % (o[0], len(arg), e))
        eng.flush()
        if [l for l in be.log[nlog:] if not l.startswith('flush')]:
            raise Violation('apply:partial', 'refused, but commands were sent: %s' % be.log[nlog:][:3])
        ctx.count('rejected')
    else:
        if not unitary and (len(o[0].terms) != 1 or abs(o[2] - 1) > 1e-6):
            raise Violation('apply:accepted', '%s is not unitary but is applied' % o[0])
        if need > len(arg):
            raise Violation('apply:accepted', '%s acts outside of %d qubits but is applied' % (o[0], len(arg)))
        eng.flush()
        full = np.zeros_like(before)
        for t, c in o[0].terms.items():
            m = [ref.I2] * width
            for i, p in t:
                m[i] = ref.PAULI[p]
            full = full + complex(c) * (ref.kron_le(m) @ before)
        d = np.abs(be.state.reorder(ids) - full).max()
        if d > 1e-9:
            raise Violation('apply:wrong', '%s on %d qubits: state differs by %.3g' % (o[0], width, d), log=be.log[nlog:])
        ctx.count('applied')
    two = None
    try:
        o[0] | (reg[:1], reg[1:])
    except (TypeError, ValueError):
        ctx.count('rejected')
    else:
        raise Violation('apply:two-registers', 'applied to two registers')
    for q in reg:
        q.id = -1
    ctx.sig('apply', w.n, width, unitary, len(o[0].terms))


def case_repeated(ctx, rng, idx):
    """A term that names a qubit twice is either rejected or stands for the product of its Pauli operators."""
    from projectq.ops import QubitOperator
    a, b, i = rng.choice('XYZ'), rng.choice('XYZ'), rng.randint(0, 3)
    other = [(5, 'Z')] if rng.random() < .5 else []
    t = [(i, a), (i, b)] + other
    arg = tuple(t) if rng.random() < .5 else ' '.join('%s%d' % (p, k) for k, p in t)
    try:
        op = QubitOperator(arg)
    except Exception:
        ctx.count('rejected')
        return
    left = QubitOperator(((i, a),)) * QubitOperator(((i, b),)) * QubitOperator(tuple(other))
    ctx.sig('repeated', a, b)
    if not op.isclose(left):
        raise Violation('repeated-qubit:kept', 'QubitOperator(%r) has terms %s; the product is %s' % (arg, op.terms, left.terms))


JOBS = dict(repeated=Job(case_repeated, 30, 200, shards=1),
            algebra=Job(case_algebra, 2500, 60000, shards=6, time_quick=60), apply=Job(case_apply, 500, 8000, shards=2, time_quick=60))
