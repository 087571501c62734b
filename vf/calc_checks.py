"""Result processing (C04 formulas, C07 principal stresses of thick shells)."""
import itertools
import math
from fractions import Fraction

from . import dense
from . import terms as T
from .dense import Arr, Mismatch, indices, at, transpose, broadcast, zip2
from .terms import K, NONE, TRUE, FALSE, raw, seq, Unsupported
from .interp import Interp
from .check import Report, REPO

FULL = raw('slice', NONE, NONE, NONE)


class Bad(Exception):
    pass


class Real(object):
    """numbers"""
    @staticmethod
    def const(v):
        return float(v)

    @staticmethod
    def add(a, b):
        return known(a) + known(b)

    @staticmethod
    def mul(a, b):
        return known(a) * known(b)

    @staticmethod
    def power(a, e):
        return known(a) ** float(e)

    @staticmethod
    def neg(a):
        return known(a) < 0

    @staticmethod
    def zero(a):
        return known(a) == 0

    abs = staticmethod(abs)


def known(a):
    if a is None:
        raise Bad('uninitialised values are used')
    return a


class Poly(object):
    """polynomials in components and square roots of polynomials: {monomial: coefficient}"""
    @staticmethod
    def const(v):
        return {(): Fraction(v)} if v else {}

    @staticmethod
    def add(a, b):
        r = dict(known(a))
        for m, c in known(b).items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    @staticmethod
    def mul(a, b):
        r = {}
        for m, c in known(a).items():
            for n, d in known(b).items():
                k = dict(m)
                for x, e in n:
                    k[x] = k.get(x, 0) + e
                out = {(): c * d}
                for x in [x for x in k if x[0] == 'sqrt' and k[x] >= 2]:
                    for _ in range(k[x] // 2):
                        out = Poly.mul(out, dict(x[1]))
                    k[x] %= 2
                rest = tuple(sorted(((x, e) for x, e in k.items() if e), key=repr))
                if out == {(): c * d}:
                    r = Poly.add(r, {rest: c * d})
                else:
                    r = Poly.add(r, Poly.mul(out, {rest: Fraction(1)}))
        return r

    @staticmethod
    def power(a, e):
        e = Fraction(e)
        if e.denominator == 2:
            a = Poly.sqrt(a)
            e *= 2
        if e.denominator != 1 or e < 0:
            raise Unsupported('power %s' % e)
        r = Poly.const(1)
        for _ in range(int(e)):
            r = Poly.mul(r, a)
        return r

    @staticmethod
    def sqrt(a):
        """normalised: the first coefficient under the root is 1"""
        if not a:
            return {}
        c = a[min(a, key=repr)]
        if set(a) == {()} and c > 0:
            return {(): root(c)}
        k = abs(c)
        inner = tuple(sorted(((m, tidy(v / k)) for m, v in a.items() if abs(v / k) > 1e-12), key=repr))
        return {((('sqrt', inner), 1),): root(k)}

    @staticmethod
    def abs(a):
        return Poly.sqrt(Poly.mul(a, a))

    @staticmethod
    def neg(a):
        raise Unsupported('case distinction over data')

    zero = neg


def root(c):
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return Fraction(math.sqrt(c))


def tidy(c):
    d = c.limit_denominator(10 ** 5)
    return d if abs(c - d) < Fraction(1, 10 ** 12) else Fraction(round(float(c), 11))


def alike(a, b):
    return all(abs(a.get(m, 0) - b.get(m, 0)) < 1e-9 for m in set(a) | set(b))


class Field(dense.Dense):
    """array terms of known shape with entries of an algebra"""
    def __init__(self, leaves, alg):
        dense.Dense.__init__(self, None, 0)
        self.leaves, self.alg = leaves, alg

    def scalar(self, v):
        return Arr((), [v])

    def args(self, t, names):
        """positional and keyword arguments of a call"""
        out = {}
        for n, x in zip(names, [x for x in t.args[1:] if x.op != 'kw']):
            out[n] = x
        for x in t.args[1:]:
            if x.op == 'kw':
                out[x.args[0]] = x.args[1]
        return out

    def ev(self, t):
        A = self.alg
        if t in self.leaves:
            return self.leaves[t]
        if T.is_num(t):
            v = T.kval(t)
            if isinstance(v, complex):
                raise Unsupported('complex')
            return self.scalar(A.const(v))
        op = t.op
        if op == 'fl':
            return self(t.args[0])
        if op == 'sqrt':
            return self.each(lambda x: A.power(x, Fraction(1, 2)), self(t.args[0]))
        if op == 'abs':
            return self.each(A.abs, self(t.args[0]))
        if op == 'idiv' and A is Poly:
            a, b = self(t.args[0]), self(t.args[1])
            return zip2(lambda x, y: {((('floor', repr(x), repr(y)), 1),): Fraction(1)}, a, b)
        if op == 'poly':
            out = self.scalar(A.const(0))
            for mono, c in t.args[0]:
                m = self.scalar(A.const(c))
                for b, e in mono:
                    m = zip2(A.mul, m, self.each(lambda x: A.power(x, e), self(b)))
                out = zip2(A.add, out, m)
            return out
        if op in ('zeros', 'ones', 'empty', 'full'):
            d = self.shape(t.args[0])
            n = 1
            for x in d:
                n *= x
            v = A.const(0) if op == 'zeros' else A.const(1) if op == 'ones' else None
            if op == 'full':
                return broadcast(self.lit(t.args[1]), d)
            return Arr(d, [v] * n)
        if op == 'stack' or op == 'call' and t.args[0] == 'numpy.stack':
            ax = t.args[1] if op == 'stack' and len(t.args) > 1 else K(0)
            if ax is not K(0):
                a = self.lit(t.args[0])
                if not T.is_kint(ax):
                    raise Unsupported('stack')
                n = len(a.shape)
                p = list(range(1, n))
                p.insert(T.kval(ax) % n, 0)
                return transpose(a, p)
        if op in ('vif',):
            return self.choose(t.args[0], t.args[1], t.args[2])
        if op == 'ite':
            return self.choose(*t.args)
        if op == 'call':
            return self.call(t)
        if op == 'eigval':
            return self.eigval(t)
        if op == 'arange':
            g = [x for x in t.args if T.is_kint(x)]
            if len(g) != len(t.args) or len(g) > 3:
                raise Unsupported('arange')
            v = list(range(*[T.kval(x) for x in g]))
            return Arr((len(v),), [A.const(x) for x in v])
        if op == 'mask':
            return self.each(A.const, self.cond(t.args[0]))
        if op in ('sub', 'setsub') and t.args[1].op == 'mask':
            a, g = self(t.args[0]), self.mask(t.args[1])
            n = len(g.shape)
            if a.shape[:n] != g.shape:
                raise Mismatch('mask of shape %s for an array of shape %s' % (g.shape, a.shape))
            w = 1
            for x in a.shape[n:]:
                w *= x
            pick = [k * w + j for k, x in enumerate(g.data) if x for j in range(w)]
            shape = (len(pick) // w if w else sum(map(bool, g.data)),) + tuple(a.shape[n:])
            if op == 'sub':
                return Arr(shape, [a.data[k] for k in pick])
            v = broadcast(self.lit(t.args[2]), shape)
            data = list(a.data)
            for k, x in zip(pick, v.data):
                data[k] = x
            return Arr(a.shape, data)
        if op == 'T':
            a = self(t.args[0])
            return transpose(a, list(range(len(a.shape)))[::-1])
        return dense.Dense.ev(self, t)

    def eigval(self, t):
        raise Unsupported('eigenvalues')

    def whole(self, e):
        if isinstance(e, dict):
            if set(e) - {()}:
                raise Unsupported('index by data')
            e = e.get((), 0)
        return int(round(known(e)))

    def shape(self, t):
        d = dense.ints(t)
        if d is None and T.is_kint(t):
            d = [T.kval(t)]
        if d is None:
            raise Unsupported('unknown shape')
        return d

    def each(self, f, a):
        return Arr(a.shape, [f(known(x)) for x in a.data])

    def cond(self, c):
        """elementwise truth"""
        if c in (TRUE, FALSE):
            return self.scalar(c is TRUE)
        if c.op == 'ite':
            g, a, b = self.cond(c.args[0]), self.cond(c.args[1]), self.cond(c.args[2])
            s = dense.common(dense.common(g.shape, a.shape), b.shape)
            g, a, b = (broadcast(x, s) for x in (g, a, b))
            return Arr(s, [y if x else z for x, y, z in zip(g.data, a.data, b.data)])
        if c.op == 'mask':
            return self.cond(c.args[0])
        if c.op == 'not':
            return self.each(lambda x: not x, self.cond(c.args[0]))
        if c.op == 'neg':
            return self.each(self.alg.neg, self(c.args[0]))
        if c.op == 'eq':
            return self.each(self.alg.zero, zip2(self.alg.add, self(c.args[0]),
                                                 self.each(lambda x: self.alg.mul(self.alg.const(-1), x), self(c.args[1]))))
        raise Unsupported('condition %s' % T.show(c, 3))

    def mask(self, c):
        return self.cond(c)

    def choose(self, c, a, b):
        g, x, y = self.cond(c), self(a), self(b)
        s = dense.common(dense.common(g.shape, x.shape), y.shape)
        g, x, y = (broadcast(v, s) for v in (g, x, y))
        return Arr(s, [u if k else v for k, u, v in zip(g.data, x.data, y.data)])

    def axes(self, ax, n):
        if ax is None or ax is NONE:
            return list(range(n))
        d = self.shape(ax)
        if any(not -n <= x < n for x in d):
            raise Mismatch('axis')
        return [x % n for x in d]

    def reduce(self, f, t, names=('a', 'axis')):
        g = self.args(t, names)
        if set(g) - {'a', 'axis', 'keepdims'} or g.get('keepdims', FALSE) not in (TRUE, FALSE):
            raise Unsupported('arguments of %s' % t.args[0])
        a = self.lit(g['a'])
        n = len(a.shape)
        axes = self.axes(g.get('axis'), n)
        keep = [i for i in range(n) if i not in axes]
        b = transpose(a, keep + axes)
        lead = b.shape[:len(keep)]
        size = 1
        for x in b.shape[len(keep):]:
            size *= x
        if not size:
            raise Mismatch('reduction of nothing')
        out = [f([known(v) for v in b.data[k:k + size]]) for k in range(0, len(b.data), size)]
        if g.get('keepdims') is TRUE:
            return Arr([1 if i in axes else a.shape[i] for i in range(n)], out)
        return Arr(lead, out)

    def along(self, f, a, ax):
        """apply f to the vectors along an axis"""
        n = len(a.shape)
        if n == 0:
            raise Mismatch('axis')
        ax %= n
        perm = [i for i in range(n) if i != ax] + [ax]
        b = transpose(a, perm)
        m = b.shape[-1]
        out = [f(b.data[k:k + m]) for k in range(0, len(b.data), m)] if m else []
        w = len(out[0]) if out else len(f([0.0] * m)) if m else 0
        back = [perm.index(i) for i in range(n)]
        return transpose(Arr(b.shape[:-1] + (w,), [v for x in out for v in x]), back)

    def call(self, t):
        A = self.alg
        f = t.args[0]
        if not isinstance(f, str):
            raise Unsupported('call')
        f = f.replace('numpy.', '').lstrip('.')
        if A is Real:
            red = {'max': max, 'amax': max, 'nanmax': max, 'min': min, 'amin': min, 'nanmin': min, 'sum': sum, 'any': any, 'all': all,
                   'ptp': lambda v: max(v) - min(v), 'argmax': lambda v: v.index(max(v)), 'argmin': lambda v: v.index(min(v))}
            if f in red:
                return self.reduce(red[f], t)
            if f in ('maximum', 'minimum', 'fmax', 'fmin'):
                return zip2(max if 'max' in f else min, self.lit(t.args[1]), self.lit(t.args[2]))
            if f == 'sign':
                return self.each(lambda x: (x > 0) - (x < 0), self.lit(t.args[1]))
            if f == 'copysign':
                return zip2(lambda x, y: math.copysign(x, y), self.lit(t.args[1]), self.lit(t.args[2]))
            if f in ('sort', 'argsort'):
                g = self.args(t, ('a', 'axis'))
                ax = g.get('axis', K(-1))
                if set(g) - {'a', 'axis'} or not T.is_kint(ax):
                    raise Unsupported(f)
                if f == 'sort':
                    return self.along(sorted, self.lit(g['a']), T.kval(ax))
                return self.along(lambda v: sorted(range(len(v)), key=lambda i: v[i]), self.lit(g['a']), T.kval(ax))
            if f == 'take_along_axis':
                g = self.args(t, ('a', 'indices', 'axis'))
                a, i, ax = self.lit(g['a']), self.lit(g['indices']), g['axis']
                if not T.is_kint(ax) or len(a.shape) != len(i.shape):
                    raise Unsupported(f)
                ax = T.kval(ax) % len(a.shape)
                out = []
                for ix in indices(i.shape):
                    s = list(ix)
                    s[ax] = int(at(i, ix)) % a.shape[ax]
                    out.append(at(a, [0 if a.shape[q] == 1 and q != ax else v for q, v in enumerate(s)]))
                return Arr(i.shape, out)
            if f == 'delete':
                g = self.args(t, ('a', 'i', 'axis'))
                a, i = self.lit(g['a']), self.lit(g['i'])
                if g.get('axis', NONE) is not NONE and len(a.shape) != 1:
                    raise Unsupported(f)
                gone = {int(x) % len(a.data) for x in i.data}
                d = [v for k, v in enumerate(a.data) if k not in gone]
                return Arr((len(d),), d)
        if f == 'where' and len(t.args) == 4:
            return self.choose(*t.args[1:])
        if f in ('abs', 'absolute', 'fabs'):
            return self.each(A.abs, self.lit(t.args[1]))
        if f in ('hypot',):
            a = zip2(A.mul, self.lit(t.args[1]), self.lit(t.args[1]))
            b = zip2(A.mul, self.lit(t.args[2]), self.lit(t.args[2]))
            return self.each(lambda x: A.power(x, Fraction(1, 2)), zip2(A.add, a, b))
        if f in ('square',):
            a = self.lit(t.args[1])
            return zip2(A.mul, a, a)
        if f in ('zeros_like', 'ones_like', 'empty_like'):
            a = self.lit(t.args[1])
            return Arr(a.shape, [A.const(0) if f[0] == 'z' else A.const(1) if f[0] == 'o' else None] * len(a.data))
        if f == 'expand_dims':
            a, ax = self.lit(t.args[1]), self.args(t, ('a', 'axis')).get('axis')
            if not T.is_kint(ax):
                raise Unsupported(f)
            s = list(a.shape)
            s.insert(T.kval(ax) % (len(s) + 1), 1)
            return Arr(s, a.data)
        if f == 'squeeze':
            a = self.lit(t.args[1])
            ax = self.axes(self.args(t, ('a', 'axis')).get('axis'), len(a.shape))
            return Arr([x for i, x in enumerate(a.shape) if not (i in ax and x == 1)], a.data)
        raise Unsupported('operator %s' % f)


class Bench(object):
    """interprets functions on arrays of known shape"""
    def __init__(self):
        I = self.I = Interp(REPO)
        if I.load('freesif.calc') is None:
            raise Unsupported('module freesif.calc has vanished')
        I.unroll = 400
        D = I.D
        eig = lambda a, kw: seq('tuple', [I.new_box(raw('eigval', self.arr(a[0]), '')), I.new_box(raw('eigvec', self.arr(a[0])))])
        I.hooks['numpy.linalg.eig'] = eig
        I.hooks['numpy.linalg.eigvals'] = lambda a, kw: I.new_box(raw('eigval', self.arr(a[0]), ''))
        I.hooks['numpy.linalg.eigh'] = lambda a, kw: seq('tuple', [I.new_box(raw('eigval', self.arr(a[0]), 'h')),
                                                                   I.new_box(raw('eigvec', self.arr(a[0])))])
        I.hooks['numpy.linalg.eigvalsh'] = lambda a, kw: I.new_box(raw('eigval', self.arr(a[0]), 'h'))

        def ndindex(a, kw):
            s = D(a[0]) if len(a) == 1 else seq('tuple', [D(x) for x in a])
            d = dense.ints(s) if s.op == 'seq' else [T.kval(s)] if T.is_kint(s) else None
            if d is None:
                raise Unsupported('ndindex')
            return I.new_ref('list', seq('list', [seq('tuple', [K(x) for x in ix]) for ix in indices(d)]))
        I.hooks['numpy.ndindex'] = ndindex
        self.base = dict(I.st)

    def arr(self, x):
        return self.I.D(x)

    def call(self, name, shape, args=()):
        """term of the result for an array of that shape"""
        I = self.I
        I.st = dict(self.base)
        a = raw('sym', 'arr', 'arr')
        I.arrays = {a: (tuple(K(x) for x in shape), 'float64')}
        n = 1
        for x in shape:
            n *= x
        sh = Shapes({a: Arr(shape, [0.0] * n)})
        I.shaper = sh.of
        f = I.func('freesif.calc', name)
        self.box = I.new_box(a)
        ex = I.run(f, [self.box] + list(args))
        if len(ex) != 1:
            raise Unsupported('outcome of %s is not determined' % name)
        self.final = ex[0].st
        if ex[0].kind == 'raise':
            raise Bad('%s is raised' % T.show(ex[0].val, 3))
        return a, I.reify(ex[0].val, ex[0].st)


class Shapes(Field):
    """shapes only"""
    def __init__(self, leaves):
        Field.__init__(self, leaves, Real)

    def eigval(self, t):
        a = self(t.args[0])
        return Arr(a.shape[:-1], [0.0] * (len(a.data) // a.shape[-1] if a.shape[-1] else 0))

    def mask(self, c):
        raise Unsupported('number of elements of a mask')

    def of(self, t):
        try:
            return self(t).shape
        except (Unsupported, Bad, Mismatch, ZeroDivisionError):
            return None


class Eigen(Field):
    """values of the leaf are given as linear forms; eigenvalues are given numbers"""
    def __init__(self, leaf, forms, tensors, lams):
        Field.__init__(self, {}, Real)
        self.forms, self.tensors, self.lams = forms, tensors, lams

    def eigval(self, t):
        s = self.forms(t.args[0])
        if len(s.shape) < 2 or s.shape[-2:] != (3, 3):
            raise Bad('eigenvalues of an array of shape %s are taken' % (s.shape,))
        if s.shape[:-2] != self.tensors[0]:
            raise Bad('tensors have shape %s' % (s.shape,))
        out = []
        for k, want in enumerate(self.tensors[1]):
            got = s.data[9 * k:9 * k + 9]
            for i in range(3):
                for j in range(3):
                    # symmetric routines use the lower triangle only
                    if not (t.args[1] == 'h' and j > i) and not alike(got[3 * i + j], want[i][j]):
                        raise Bad('entry %d,%d of the stress tensor is wrong' % (i + 1, j + 1))
            out += sorted(self.lams[k]) if t.args[1] == 'h' else list(self.lams[k])
        return Arr(s.shape[:-1], out)


TECH = ('static value-flow analysis: functions of freesif.calc are interpreted abstractly into terms over arrays of known shape and '
        'symbolic values; %s')
LEADS = [(), (1,), (4,), (2, 3), (3, 1, 2), (2, 1, 2, 2), (0,), (2, 0)]


def leaf(shape, alg):
    n = 1
    for x in shape:
        n *= x
    return Arr(shape, [{((('arr', ix), 1),): Fraction(1)} for ix in indices(shape)])


def check_C04(tier):
    rep = Report('C04', tier, TECH % 'entries of results are compared as polynomials and roots, selections over all orders of values',
                 'every entry of the result is the formula required of the components of its position',
                 ['values are finite real numbers (no overflow, no NaN)', 'leading shapes: up to four axes'])
    try:
        b = Bench()
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep

    def comp(ix, k):
        return {((('arr', ix + (k,)), 1),): Fraction(1)}

    def vm(ix):
        x, y, t = (comp(ix, k) for k in range(3))
        M, A = Poly.mul, Poly.add
        s = A(A(M(x, x), M(y, y)), A(M(Poly.const(-1), M(x, y)), M(Poly.const(3), M(t, t))))
        return [Poly.sqrt(s)]

    def pr(ix):
        x, y, t = (comp(ix, k) for k in range(3))
        M, A = Poly.mul, Poly.add
        h = Poly.const(Fraction(1, 2))
        d = M(h, A(x, M(Poly.const(-1), y)))
        r = Poly.sqrt(A(M(d, d), M(t, t)))
        m = M(h, A(x, y))
        return [A(m, r), A(m, M(Poly.const(-1), r))]

    def formula(name, ref, width, lead, last):
        shape = lead + (last,)
        a, t = b.call(name, shape)
        try:
            got = Field({a: leaf(shape, Poly)}, Poly)(t)
        except Mismatch as e:
            raise Bad('fails: %s' % e)
        want = lead + ((width,) if width > 1 else ())
        if got.shape != want:
            raise Bad('the result has shape %s, should be %s' % (got.shape, want))
        k = 0
        for ix in indices(lead):
            for j, w in enumerate(ref(ix)):
                if not alike(known(got.data[k]), w):
                    raise Bad('entry %s is not the formula' % (ix + ((j,) if width > 1 else ()),))
                k += 1

    def absmax(shape, axis):
        args = [] if axis == 'default' else [K(axis) if not isinstance(axis, tuple) else seq('tuple', [K(x) for x in axis])]
        a, t = b.call('absmax', shape, args)
        n = 1
        for x in shape:
            n *= x
        axes = [x % len(shape) for x in ((axis,) if isinstance(axis, int) else axis)] if axis not in (None, 'default') \
            else list(range(len(shape)))
        keep = [i for i in range(len(shape)) if i not in axes]
        size = 1
        for i in axes:
            size *= shape[i]
        vals = list(itertools.product((-3, -2, -1, 0, 1, 2, 3), repeat=size)) if size <= 3 else \
            [p for p in itertools.product((-2, -1, 0, 1, 2), repeat=size)] if size <= 4 else \
            [tuple(s * ((i * k + j) % 5 - 2) for i in range(size)) for k in range(5) for j in range(5) for s in (1, -1)]
        groups = max(n // size, 1)
        for start in range(0, len(vals), groups):
            use = [vals[(start + g) % len(vals)] for g in range(groups)]
            src = Arr(tuple(shape[i] for i in keep + axes), [float(v) for u in use for v in u])
            back = [(keep + axes).index(i) for i in range(len(shape))]
            try:
                got = Field({a: transpose(src, back)}, Real)(t)
            except Mismatch as e:
                raise Bad('fails: %s' % e)
            want = tuple(shape[i] for i in keep)
            if got.shape != want:
                raise Bad('the result has shape %s, should be %s' % (got.shape, want))
            for u, g in zip(use, got.data):
                m = max(abs(v) for v in u)
                if known(g) not in u or abs(g) != m:
                    raise Bad('for values ordered like %s the result is the one like %s' % (list(u), g))
            rep.tally('orders of values', len(use))
    items = []
    for name, ref, width, where in (('vonmises2d', vm, 1, 'vonmises'), ('principal2d', pr, 2, 'principal')):
        for lead in LEADS:
            for last in (3, 5, 6):
                items.append(('%s of shape %s' % (name, lead + (last,)), 'freesif/calc/%s.py: %s' % (where, name),
                              formula, (name, ref, width, lead, last)))
    for shape, axes in (((3,), ('default', None, 0, -1)), ((1,), (None, 0)), ((4,), (None, 0)), ((2, 3), ('default', None, 0, 1, -1)),
                        ((3, 2), (0, 1, -2)), ((2, 2, 3), (0, 1, 2, -1, None)), ((2, 3, 2), (1, (0, 2)))):
        for ax in axes:
            items.append(('absmax of shape %s, axis %s' % (shape, ax), 'freesif/calc/general.py: absmax', absmax, (shape, ax)))

    def one(item):
        unit, where, f, a = item

        def do():
            try:
                f(*a)
            except Bad as e:
                rep.violation(unit, where, str(e))
                return
            rep.good(unit)
        rep.run(unit, do)
        rep.analysed.update(v for v in b.I.visited if v.startswith('freesif'))
    rep.parallel(one, items)
    return rep


def check_C07(tier):
    rep = Report('C07', tier, TECH % 'the tensors handed to the eigenvalue routine are compared entry by entry, the selection among '
                                     'the eigenvalues is decided for every order of their values and magnitudes',
                 'the eigenvalues of the stress tensor of each point are taken, the smallest in magnitude is dropped and the two '
                 'others are returned, larger first',
                 ['the eigenvalue routines of numpy return the eigenvalues of the matrix they are given (eig in any order)',
                  'leading shapes: up to four axes'])
    try:
        b = Bench()
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    LAM = list(itertools.product((-3, -2, -1, 0, 1, 2, 3), repeat=3))

    def one(lead, last):
        shape = lead + (last,)
        a, t = b.call('principal_thickshell', shape)
        forms = Field({a: leaf(shape, Poly)}, Poly)
        pts = list(indices(lead))

        def c(ix, k):
            return {((('arr', ix + (k,)), 1),): Fraction(1)}
        ten = [[[c(p, 0), c(p, 2), c(p, 3)], [c(p, 2), c(p, 1), c(p, 4)], [c(p, 3), c(p, 4), {}]] for p in pts]
        for start in range(0, len(LAM), max(len(pts), 1)):
            use = [LAM[(start + k) % len(LAM)] for k in range(len(pts))]
            e = Eigen(a, forms, (lead, ten), [tuple(map(float, u)) for u in use])
            try:
                got = e(t)
            except Mismatch as x:
                raise Bad('fails: %s' % x)
            if got.shape != lead + (2,):
                raise Bad('the result has shape %s, should be %s' % (got.shape, lead + (2,)))
            for k, u in enumerate(use):
                g = [known(x) for x in got.data[2 * k:2 * k + 2]]
                m = min(abs(x) for x in u)
                ok = [sorted((u[i] for i in range(3) if i != j), reverse=True) for j in range(3) if abs(u[j]) == m]
                if g not in [[float(x) for x in o] for o in ok]:
                    raise Bad('for eigenvalues ordered like %s the result is the one like %s' % (list(u), g))
            rep.tally('orders of eigenvalues', len(use))

    def item(x):
        unit = 'principal_thickshell of shape %s' % (x[0] + (x[1],),)

        def do():
            try:
                one(*x)
            except Bad as e:
                rep.violation(unit, 'freesif/calc/principal.py: principal_thickshell', str(e))
                return
            rep.good(unit)
        rep.run(unit, do)
        rep.analysed.update(v for v in b.I.visited if v.startswith('freesif'))
    rep.parallel(item, [(l, k) for l in LEADS for k in (5, 6)])
    return rep
