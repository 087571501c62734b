"""Exact evaluation of array terms of known shape as linear forms in the components of their input.

An entry is a dict {component: coefficient} (component None: constant).  Used to decide whether an
expression over reshape / transpose / index / dot / in-place assignment is the linear map it should be,
whatever way it is written.
"""
import math

from . import terms as T
from .terms import K, NONE, Unsupported


class Arr(object):
    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), data
        n = 1
        for s in shape:
            n *= s
        if n != len(data):
            raise Mismatch('shape %s for %d values' % (self.shape, len(data)))

    def strides(self):
        out, n = [], 1
        for s in reversed(self.shape):
            out.insert(0, n)
            n *= s
        return out


class Mismatch(Exception):
    """the expression raises (wrong number of elements, bad index)"""


def add(a, b, k=1.0):
    r = dict(a)
    for x, c in b.items():
        v = r.get(x, 0.0) + k * c
        if v == 0:
            r.pop(x, None)
        else:
            r[x] = v
    return r


def scale(a, k):
    return {x: c * k for x, c in a.items() if c * k != 0}


def mul(a, b):
    if not a or not b:
        return {}
    if set(a) <= {None}:
        return scale(b, a.get(None, 0.0))
    if set(b) <= {None}:
        return scale(a, b.get(None, 0.0))
    raise Unsupported('product of two data values')


def indices(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in indices(shape[1:]):
            yield (i,) + r


def at(a, idx):
    p = 0
    for i, s, n in zip(idx, a.strides(), a.shape):
        p += i * s
    return a.data[p]


def transpose(a, perm):
    shape = [a.shape[p] for p in perm]
    out = []
    for ix in indices(shape):
        src = [0] * len(perm)
        for k, p in enumerate(perm):
            src[p] = ix[k]
        out.append(at(a, src))
    return Arr(shape, out)


def reshape(a, dims):
    dims = list(dims)
    if -1 in dims:
        n = 1
        for d in dims:
            if d != -1:
                n *= d
        if n == 0 or len(a.data) % n:
            raise Mismatch('reshape to %s' % (dims,))
        dims[dims.index(-1)] = len(a.data) // n
    return Arr(dims, a.data)


def broadcast(a, shape):
    if a.shape == tuple(shape):
        return a
    pad = len(shape) - len(a.shape)
    if pad < 0:
        raise Mismatch('broadcast')
    full = (1,) * pad + a.shape
    b = Arr(full, a.data)
    out = []
    for ix in indices(shape):
        src = []
        for i, s, n in zip(ix, shape, full):
            if n != s and n != 1:
                raise Mismatch('broadcast of %s to %s' % (a.shape, tuple(shape)))
            src.append(0 if n == 1 else i)
        out.append(at(b, src))
    return Arr(shape, out)


def common(sa, sb):
    n = max(len(sa), len(sb))
    sa, sb = (1,) * (n - len(sa)) + tuple(sa), (1,) * (n - len(sb)) + tuple(sb)
    out = []
    for x, y in zip(sa, sb):
        if x != y and 1 not in (x, y):
            raise Mismatch('shapes %s %s' % (sa, sb))
        out.append(y if x == 1 else x)
    return tuple(out)


def zip2(f, a, b):
    s = common(a.shape, b.shape)
    a, b = broadcast(a, s), broadcast(b, s)
    return Arr(s, [f(x, y) for x, y in zip(a.data, b.data)])


def dot(a, b):
    if not a.shape or not b.shape:
        return zip2(mul, a, b)
    k = a.shape[-1]
    bk = len(b.shape) - 2 if len(b.shape) > 1 else 0
    if b.shape[bk] != k:
        raise Mismatch('dot of %s and %s' % (a.shape, b.shape))
    rest = b.shape[:bk] + b.shape[bk + 1:]
    out = []
    for ia in indices(a.shape[:-1]):
        for ib in indices(rest):
            s = {}
            for j in range(k):
                s = add(s, mul(at(a, ia + (j,)), at(b, ib[:bk] + (j,) + ib[bk:])))
            out.append(s)
    return Arr(a.shape[:-1] + rest, out)


def number(t):
    """constant value of a scalar term, or None"""
    if T.is_num(t):
        return float(T.kval(t)) if not isinstance(T.kval(t), complex) else T.kval(t)
    if t.op == 'sqrt':
        v = number(t.args[0])
        return math.sqrt(v) if v is not None and v >= 0 else None
    if t.op == 'poly':
        s = 0.0
        for mono, c in t.args[0]:
            m = float(c)
            for b, e in mono:
                v = number(b)
                if v is None:
                    return None
                m *= v ** e
            s += m
        return s
    return None


def ints(t):
    f = T.seq_fixed(t) if t.op == 'seq' else None
    if f is None:
        return None
    out = []
    for x in f:
        if not T.is_kint(x):
            return None
        out.append(T.kval(x))
    return out


class Dense(object):
    def __init__(self, leaf, nd):
        """leaf: the term of the input vector (nd components)"""
        self.leaf, self.nd = leaf, nd
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r

    def lit(self, t):
        """nested literal"""
        if t.op == 'seq':
            f = T.seq_fixed(t)
            if f is None:
                raise Unsupported('array of unknown length')
            parts = [self.lit(x) for x in f]
            if not parts:
                return Arr((0,), [])
            if any(p.shape != parts[0].shape for p in parts):
                raise Mismatch('ragged array')
            return Arr((len(parts),) + parts[0].shape, [v for p in parts for v in p.data])
        return self(t)

    def ev(self, t):
        if t is self.leaf:
            return Arr((self.nd,), [{i: 1.0} for i in range(self.nd)])
        v = number(t)
        if v is not None:
            return Arr((), [{None: v} if v else {}])
        op = t.op
        if op in ('array', 'stack', 'seq') and (op != 'stack' or len(t.args) == 1 or t.args[1] is K(0)):
            return self.lit(t.args[0] if op != 'seq' else t)
        if op in ('copy', 'astype', 'vec'):
            return self(t.args[0])
        if op == 'reshape':
            d = ints(t.args[1])
            if d is None:
                raise Unsupported('reshape to unknown shape')
            return reshape(self(t.args[0]), d)
        if op == 'transpose':
            a = self(t.args[0])
            p = ints(t.args[1]) if len(t.args) > 1 else None
            if p is None:
                p = list(reversed(range(len(a.shape))))
            if len(p) != len(a.shape):
                raise Mismatch('transpose')
            return transpose(a, p)
        if op in ('moveaxis', 'rollaxis'):
            a = self(t.args[0])
            n = len(a.shape)
            x = [T.kval(q) if T.is_kint(q) else None for q in t.args[1:]]
            if None in x:
                raise Unsupported(op)
            if op == 'moveaxis':
                src, dst = x[0] % n, x[1] % n
            else:
                src, dst = x[0] % n, (x[1] % n if len(x) > 1 and x[1] != n else (n if len(x) > 1 else 0))
                if dst > src:
                    dst -= 1
            p = [i for i in range(n) if i != src]
            p.insert(dst, src)
            return transpose(a, p)
        if op == 'dot':
            return dot(self(t.args[0]), self(t.args[1]))
        if op == 'sub':
            return self.index(self(t.args[0]), t.args[1])[0]
        if op == 'setsub':
            a = self(t.args[0])
            v = self.lit(t.args[2])
            _, where, shape = self.index(Arr(a.shape, list(range(len(a.data)))), t.args[1], True)
            v = broadcast(v, shape)
            data = list(a.data)
            for p, x in zip(where, v.data):
                data[p] = x
            return Arr(a.shape, data)
        if op == 'take':
            a = self(t.args[0])
            ax = t.args[2] if len(t.args) > 2 else NONE
            if ax is NONE:
                a, ax = Arr((len(a.data),), a.data), K(0)
            if not T.is_kint(ax):
                raise Unsupported('take')
            full = T.raw('slice', NONE, NONE, NONE)
            return self.index(a, T.seq('tuple', [full] * (T.kval(ax) % len(a.shape)) + [t.args[1]]))[0]
        if op == 'concatenate':
            ax = t.args[1]
            if t.args[0].op != 'seq' or not T.is_kint(ax):
                raise Unsupported('concatenate')
            parts = [self(x) for x in T.seq_fixed(t.args[0])]
            ax = T.kval(ax) % len(parts[0].shape)
            n = len(parts[0].shape)
            perm = [ax] + [i for i in range(n) if i != ax]
            back = [perm.index(i) for i in range(n)]
            tr = [transpose(p, perm) for p in parts]
            if any(p.shape[1:] != tr[0].shape[1:] for p in tr):
                raise Mismatch('concatenate')
            return transpose(Arr((sum(p.shape[0] for p in tr),) + tr[0].shape[1:],
                                 [v for p in tr for v in p.data]), back)
        if op in ('zeros', 'ones'):
            d = ints(t.args[0]) or ([T.kval(t.args[0])] if T.is_kint(t.args[0]) else None)
            if d is None:
                raise Unsupported(op)
            n = 1
            for x in d:
                n *= x
            return Arr(d, [({None: 1.0} if op == 'ones' else {}) for _ in range(n)])
        if op == 'poly':
            out = Arr((), [{}])
            for mono, c in t.args[0]:
                m = Arr((), [{None: float(c)}])
                for b, e in mono:
                    v = number(b)
                    if v is not None:
                        x = Arr((), [{None: v ** e}])
                    elif e == 1:
                        x = self(b)
                    else:
                        raise Unsupported('power of data')
                    m = zip2(mul, m, x)
                out = zip2(add, out, m)
            return out
        raise Unsupported('operator %s' % op)

    def whole(self, e):
        """an entry used as index"""
        if set(e) - {None}:
            raise Unsupported('index by data')
        return int(round(e.get(None, 0.0)))

    def index(self, a, i, positions=False):
        """numpy indexing with integers, slices, Ellipsis and integer lists"""
        its = list(T.seq_fixed(i)) if i.op == 'seq' and i.args[0] == 'tuple' else [i]
        n = sum(1 for x in its if x is not K(Ellipsis) and x is not NONE)
        out = []
        if K(Ellipsis) in its:
            k = its.index(K(Ellipsis))
            its[k:k + 1] = [T.raw('slice', NONE, NONE, NONE)] * (len(a.shape) - n)
        else:
            its += [T.raw('slice', NONE, NONE, NONE)] * (len(a.shape) - n)
        axes, kinds = [], []
        d = 0
        if NONE in its:
            if positions or any(x is not NONE and x.op != 'slice' and not T.is_kint(x) for x in its):
                raise Unsupported('newaxis')
            r = self.index(a, T.seq('tuple', [x for x in its if x is not NONE]))[0]
            shape = list(r.shape)
            d = 0
            for x in its:
                if x is NONE:
                    shape.insert(d, 1)
                d += not T.is_kint(x)
            return Arr(shape, r.data), None, None
        for x in its:
            if d >= len(a.shape):
                raise Mismatch('too many indices')
            size = a.shape[d]
            d += 1
            if T.is_kint(x):
                v = T.kval(x)
                if not -size <= v < size:
                    raise Mismatch('index %d of %d' % (v, size))
                axes.append([v % size])
                kinds.append('i')
            elif x.op == 'slice':
                b = []
                for q in x.args:
                    if q is NONE:
                        b.append(None)
                    elif T.is_kint(q):
                        b.append(T.kval(q))
                    else:
                        raise Unsupported('slice')
                axes.append(list(range(*slice(*b).indices(size))))
                kinds.append('s')
            else:
                y = self.lit(x) if x.op == 'seq' else self(x)
                if len(y.shape) != 1:
                    raise Unsupported('index array')
                v = []
                for e in y.data:
                    q = self.whole(e)
                    if not -size <= q < size:
                        raise Mismatch('index %d of %d' % (q, size))
                    v.append(q % size)
                axes.append(v)
                kinds.append('l')
        if kinds.count('l') > 1 or ('l' in kinds and 'i' in kinds):
            raise Unsupported('several index arrays')
        shape = [len(x) for x, k in zip(axes, kinds) if k != 'i']
        st = a.strides()
        where = []
        for ix in indices([len(x) for x in axes]):
            where.append(sum(axes[k][j] * st[k] for k, j in enumerate(ix)))
        return Arr(shape, [a.data[p] for p in where]), where, tuple(shape)


def same(a, b, tol=1e-6):
    """first position at which two arrays differ, or None"""
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    for k, (x, y) in enumerate(zip(a.data, b.data)):
        for c in set(x) | set(y):
            if abs(x.get(c, 0.0) - y.get(c, 0.0)) > tol:
                return 'entry %d is %s instead of %s' % (k, form(x), form(y))
    return None


def form(x):
    return ' + '.join('%.4g%s' % (c, '' if i is None else '*d[%d]' % i if isinstance(i, int) else '*%s[%s]' % i) for i, c in sorted(
        x.items(), key=lambda p: (p[0] is not None, p[0]))) or '0'
