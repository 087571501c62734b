"""Operator semantics: builtins, numpy, PyTables, strings, containers -> canonical terms."""
import ast
import string
from fractions import Fraction

from . import txt
from .terms import *                                            # noqa: F401,F403
from . import terms as T

PURE_NP = {'sin', 'cos', 'tan', 'exp', 'log', 'arctan2', 'sign', 'cumsum', 'diff', 'searchsorted', 'nonzero',
           'flatnonzero', 'argsort', 'repeat', 'tile', 'split', 'full', 'linspace', 'isnan', 'isfinite',
           'array_equal', 'argmax', 'argmin', 'squeeze', 'expand_dims', 'ravel', 'in1d', 'hypot', 'power',
           'floor', 'rint', 'count_nonzero', 'fromiter', 'lexsort', 'einsum', 'matmul', 'tensordot', 'inner',
           'outer', 'trace', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'negative', 'square',
           'append', 'delete', 'insert', 'flip', 'roll', 'dstack', 'frombuffer', 'prod', 'mean', 'invert',
           'logical_and', 'logical_or', 'logical_not', 'equal', 'not_equal', 'less', 'greater', 'choose',
           'select', 'take_along_axis', 'union1d', 'intersect1d', 'setdiff1d', 'ascontiguousarray',
           'float_power', 'complex64', 'float32', 'int32', 'dtype', 'result_type', 'real', 'imag', 'where',
           'maximum', 'minimum', 'empty_like', 'zeros_like', 'ones_like', 'product', 'broadcast_to', 'fmax'}
BUILTINS = ('len', 'range', 'zip', 'enumerate', 'reversed', 'sorted', 'isinstance', 'issubclass', 'hasattr',
            'getattr', 'setattr', 'any', 'all', 'sum', 'min', 'max', 'abs', 'round', 'iter', 'next', 'print',
            'repr', 'map', 'filter', 'open', 'callable', 'id', 'format', 'divmod', 'vars', 'property',
            'staticmethod', 'classmethod', 'NotImplemented', 'super', 'ord', 'chr', 'bytearray', 'hash',
            'memoryview', 'dir', 'pow', 'bin', 'hex', 'globals', 'locals', 'delattr')
# number of axes of the array columns the data classes use (rows axis included)
FIELD_NDIM = {('w1matrix', 'hmat'): 3, ('w1motion', 'data'): 2, ('w1exforc', 'data'): 2, ('w1sforce', 'data'): 2,
              ('w2mdrift', 'smfor'): 2, ('w2hdrift', 'shfor'): 2, ('wfluidkn', 'v'): 2, ('wfluidkn', 'p'): 1,
              ('w1panpre', 'p'): 1, ('wfkpoint', 'fkpnt'): 2, ('rsuptran', 't'): 3, ('hsuptran', 't'): 3}
NODE_NDIM = {'gelmnt1_nodin': 1, 'wdresref_freq': 2, 'wdresref_dir': 2, 'wdresref_time': 2}


# ---------------------------------------------------------------- equality
def lead(p):
    """leading coefficient of a polynomial term"""
    if p.op != 'poly':
        return Fraction(1)
    for m, c in p.args[0]:
        if m != ():
            return c
    return p.args[0][0][1]


def integral(t):
    """is t known to be an integer?"""
    if T.is_kint(t):
        return True
    if t.op in ('len', 'bv', 'psum', 'first', 'idiv', 'trips', 'stored', 'int'):
        return True
    if t.op == 'sub' and t.args[0].op == 'stored':
        return True
    if t.op == 'poly':
        return all(c.denominator == 1 and all(integral(b) and e.denominator == 1 and e > 0 for b, e in m)
                   for m, c in t.args[0])
    if t.op == 'sym' and (t.args[-1] == 'num' or t.args[0] == 'foldi'):
        return True
    return False


def sign(p):
    """1: p > 0, 0: p >= 0, -1: p < 0, None: not known (lengths and loop indices are not negative)"""
    c0, up, down = Fraction(0), True, True
    for m, c in T.to_poly(p).items():
        if m == ():
            c0 = c
            continue
        if not all(b.op in ('len', 'bv', 'trips') and e > 0 for b, e in m):
            return None
        up, down = up and c > 0, down and c < 0
    if up and c0 >= 0:
        return 1 if c0 > 0 else 0
    if down and c0 < 0:
        return -1
    return None


def eq_num(a, b):
    return lift(_eq_num, a, b)


def _eq_num(a, b):
    d = T.poly_sub(a, b)
    if is_num(d):
        return TRUE if d.args[1] == 0 else FALSE
    if d.op != 'poly':
        return T.atom('eq', d, K(0))
    if sign(d) in (1, -1):
        return FALSE
    p = dict(d.args[0])
    c0 = p.pop((), Fraction(0))
    if len(p) == 1:
        (m, c), = p.items()
        x = T.from_poly({m: Fraction(1)})
        return T.atom('eq', x, K(-c0 / c))
    c = lead(d)
    d = T.from_poly({m: v / c for m, v in T.to_poly(d).items()})
    return T.atom('eq', d, K(0))


@T.register('eq')
def mk_eq(a, b):
    return lift(_mk_eq, a, b)


def _mk_eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'txt' or b.op == 'txt':
        r = txt.equal(a, b)
        if r is not None:
            return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'stripped' and is_k(y) and txt.numeric(x.args[0]):
            return FALSE
    if is_k(a) and is_k(b):
        try:
            return TRUE if kval(a) == kval(b) and (kval(a) is None) == (kval(b) is None) else FALSE
        except Exception:
            return FALSE
    if is_k(a):
        a, b = b, a
    ka, kb = T.kind(a), T.kind(b)
    known = ('num', 'str', 'bytes', 'seq', 'none')
    if ka in known and kb in known and ka != kb:
        return FALSE
    if (is_num(b) or kb == 'num' or b.op == 'poly' or a.op == 'poly') and b is not NONE and kb not in ('str', 'bytes') \
            and ka not in ('str', 'bytes', 'seq') and kb != 'seq':
        return _eq_num(a, b)
    if b is TRUE:
        return mk_truth(a)
    if b is FALSE:
        return c_not(mk_truth(a))
    if a.op == 'seq' and b.op == 'seq' and a.args[0] in ('list', 'tuple') and b.args[0] in ('list', 'tuple'):
        fa, fb = T.seq_fixed(a), T.seq_fixed(b)
        if fa is not None and fb is not None:
            if len(fa) != len(fb) or a.args[0] != b.args[0]:
                return FALSE
            r = TRUE
            for x, y in zip(fa, fb):
                r = c_and(r, mk_eq(x, y))
            return r
    if a.op == 'shape' and b.op == 'seq':
        return T.atom('eq', a, b)
    if a.op in ('py', 'ref', 'ext') and b.op in ('py', 'ref', 'ext'):
        return FALSE
    if b is NONE and a.op in ('py', 'ref', 'ext', 'seq', 'array', 'node', 'exc'):
        return FALSE
    if b is NONE and (ka in known or ka == 'arr'):
        return FALSE
    if b is NONE and a.op in ('sub', 'fld') and from_node(a):
        return FALSE
    if is_k(b):
        return T.atom('eq', a, b)
    if b.id < a.id:
        a, b = b, a
    return T.atom('eq', a, b)


def from_node(a):
    """an element (record, column, item) of a stored table or array: never None"""
    while a.op in ('sub', 'fld', 'masked', 'mask') and isinstance(a.args[0], Term):
        a = a.args[0]
    return a.op == 'node'


@T.register('neg')
def mk_neg(p):
    return lift(_mk_neg, p)


def _mk_neg(p):
    """p < 0"""
    if is_num(p):
        return TRUE if p.args[1] < 0 else FALSE
    sg = sign(p)
    if sg is not None:
        return TRUE if sg < 0 else FALSE
    c = lead(p)
    if p.op == 'poly':
        k = abs(c)
        if k != 1:
            p = T.from_poly({m: v / k for m, v in T.to_poly(p).items()})
            if integral(T.from_poly({m: v * k for m, v in T.to_poly(p).items()})) and not integral(p):
                p = T.from_poly({m: v * k for m, v in T.to_poly(p).items()})
        if integral(p) and lead(p) < 0:
            # p < 0  <=>  not (-p - 1 < 0)
            q = T.from_poly({m: -v for m, v in T.to_poly(p).items()})
            q = T.poly_add(q, K(-1))
            return c_not(T.atom('neg', q))
        # len(x) - 1 < 0  <=>  len(x) == 0
        if integral(p):
            d = dict(p.args[0])
            if len(d) == 2 and d.get((), 0) == -1:
                (m, cc), = [(m, v) for m, v in d.items() if m != ()]
                if cc == 1 and len(m) == 1 and m[0][0].op == 'len' and m[0][1] == 1:
                    return T.atom('eq', m[0][0], K(0))
    return T.atom('neg', p)


@T.register('truth')
def mk_truth(v):
    return lift(_mk_truth, v)


def _mk_truth(v):
    if v in (TRUE, FALSE):
        return v
    if v.op == 'txt':
        return TRUE
    if is_k(v):
        return TRUE if kval(v) else FALSE
    if v.op == 'seq':
        if v.args[0] == 'dict':
            return TRUE if len(v.args) > 1 else FALSE
        if any(not (isinstance(p, Term) and p.op == 'seg') for p in v.args[1:]):
            return TRUE
        if len(v.args) == 1:
            return FALSE
        return c_not(eq_num(seq_len(v), K(0)))
    if v.op in ('py', 'ext', 'exc', 'node', 'pair', 'rematch', 'regex', 'symmatch'):
        return TRUE
    if v.op == 'Fs' or v.op == 'map' or v.op == 'sub' and T.kind(v) == 'seq':
        return c_not(eq_num(seq_len(v), K(0)))
    if v.op in ('cat', 'fmt'):
        for p in (v.args if v.op == 'cat' else ()):
            if is_k(p):
                return TRUE
        if v.op == 'fmt':
            return TRUE
    if T.kind(v) == 'num' and v.op not in ('mu',):
        return c_not(eq_num(v, K(0)))
    if v.op == 'mask' and single(v.args[0]):
        return v.args[0]
    return T.atom('truth', v)


def single(c):
    """comparisons of values not known to be arrays (an array of several items has no truth value)"""
    if c in (TRUE, FALSE):
        return True
    if c.op != 'ite' or c.args[0].op not in ('eq', 'neg'):
        return False
    for x in c.args[0].args:
        for b in ([b for m, k in x.args[0] for b, e in m] if x.op == 'poly' else [x]):
            if ndim(b):
                return False
    return single(c.args[1]) and single(c.args[2])


@T.register('isinst')
def mk_isinst(v, c):
    return lift(lambda x: _mk_isinst(x, c), v)


SUBT = {'bool': ('bool', 'int'), 'int': ('int',), 'float': ('float',), 'str': ('str',), 'bytes': ('bytes',),
        'list': ('list',), 'tuple': ('tuple',), 'dict': ('dict',), 'set': ('set',)}


def _mk_isinst(v, c):
    if isinstance(c, Term):
        return T.atom('isinst', v, c)
    if c == 'object':
        return TRUE
    if is_k(v):
        x = kval(v)
        if x is None:
            return TRUE if c == 'NoneType' else FALSE
        return TRUE if c in SUBT.get(type(x).__name__, ()) else FALSE
    if v.op == 'seq':
        return TRUE if c == v.args[0] else FALSE
    if v.op in ('cat', 'fmt'):
        return TRUE if c == 'str' else FALSE
    if v.op in ('py', 'exc', 'ext', 'node', 'pair'):
        return FALSE
    if v.op == 'array' or T.kind(v) == 'arr':
        return TRUE if c == 'numpy.ndarray' else FALSE
    if v.op in ('len', 'bv', 'poly', 'psum', 'F'):
        if c in ('str', 'bytes', 'list', 'tuple', 'dict', 'numpy.ndarray', 'set'):
            return FALSE
    if v.op == 'Fs':
        return TRUE if c == 'tuple' else FALSE
    return T.atom('isinst', v, c)


@T.register('in')
def mk_in(x, s):
    return lift(_mk_in, x, s)


def _mk_in(x, s):
    if s.op == 'seq':
        r = FALSE
        for p in s.args[1:]:
            if p.op == 'seg':
                r = c_or(r, mk_in(x, p.args[0]))
            elif s.args[0] == 'dict':
                r = c_or(r, mk_eq(x, p.args[1]))
            else:
                r = c_or(r, mk_eq(x, p))
        return r
    if s.op == 'txt' and is_k(x) and is_k(x) and not txt.numeric(s) and T.kind(x) == T.kind(s):
        if any(kval(x) in kval(p) for p in s.args[1:] if is_k(p)):
            return TRUE
    if s.op == 'k' and s.args[0] in ('str', 'bytes') and is_k(x):
        try:
            return TRUE if kval(x) in kval(s) else FALSE
        except TypeError:
            return FALSE
    if s.op in ('setof', 'keys', 'array', 'astype'):
        return mk_in(x, s.args[0])
    if s.op == 'unique':
        return mk_in(x, s.args[0])
    if s.op == 'union':
        return c_or(mk_in(x, s.args[0]), mk_in(x, s.args[1]))
    if s.op == 'map' and s.args[2].op == 'seq' and len(s.args[2].args) == 2:
        e = s.args[2].args[1]
        if e.op == 'sub' and e.args[1] is s.args[0] and s.args[0] not in fv(e.args[0]):
            return mk_in(x, e.args[0])
    if s.op == 'dstore':
        return c_or(mk_eq(x, s.args[1]), mk_in(x, s.args[0]))
    return T.atom('in', x, s)


def rematch(how, pat, flags, text):
    import re
    return getattr(re, how)(kval(pat), kval(text), int(kval(flags)))


# ---------------------------------------------------------------- strings
@T.register('cat')
def _re_cat(*parts):
    return mk_cat(parts)


def mk_cat(parts):
    if any(p.op == 'txt' for p in parts):
        r = txt.concat(parts)
        if r is not None:
            return r
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    merged = []
    for p in out:
        if is_k(p) and kval(p) in ('', b''):
            continue
        if merged and is_k(p) and is_k(merged[-1]) and type(kval(p)) is type(kval(merged[-1])) \
                and isinstance(kval(p), (str, bytes)):
            merged[-1] = K(kval(merged[-1]) + kval(p))
        else:
            merged.append(p)
    if not merged:
        return K('')
    if len(merged) == 1 and (T.kind(merged[0]) in ('str', 'bytes') or
                             merged[0].op == 'call' and merged[0].args[0] in ('.decode', '.join')):
        return merged[0]
    return raw('cat', *merged)


def mk_fmt(x, spec='', conv=''):
    if not isinstance(spec, str):
        spec = ''
    return lift(lambda v: _mk_fmt(v, spec, conv), x)


@T.register('fmt')
def _mk_fmt(v, spec, conv):
    if conv == 's':
        conv = ''
    if v.op == 'dtype':
        v = v.args[0]
    if spec in ('s', 'd'):
        spec = ''
    if is_k(v):
        try:
            x = kval(v)
            if conv == 'r':
                x = repr(x)
            return K(format(x, spec))
        except (ValueError, TypeError):
            pass
    if not spec and not conv and T.kind(v) == 'str':
        return v
    return raw('fmt', v, spec, conv)


def cat_ite(parts):
    """concatenation keeping gates at the leaves"""
    if any(p.op == 'ite' for p in parts) and sum(p.op == 'ite' for p in parts) <= 4:
        return lift(lambda *ps: mk_cat(ps), *parts)
    return mk_cat(parts)


# ---------------------------------------------------------------- arrays
def parts_fixed(t):
    return T.seq_fixed(t) if t.op in ('seq', 'Fs') else None


def int_tuple(t):
    """python tuple of ints of a constant int / tuple / list term"""
    if T.is_kint(t):
        return (kval(t),)
    f = parts_fixed(t)
    if f is not None and all(T.is_kint(x) for x in f):
        return tuple(kval(x) for x in f)
    if t.op == 'k' and t.args[0] == 'tuple':
        return tuple(t.args[1])
    return None


def listed(t):
    """what the items of a sequence are made of"""
    if t.op == 'seq':
        for x in t.args[1:]:
            if x.op == 'seg':
                yield from listed(x.args[0])
            else:
                yield x
    elif t.op == 'map':
        yield from listed(t.args[2])
    else:
        yield raw('attr', t, 'item')


def names_of(t):
    """the record whose field names t holds"""
    if t.op in ('attr', 'meth', 'fld') and len(t.args) == 2 and t.args[1] in ('names', K('names')):
        d = t.args[0]
        if isinstance(d, T.Term) and d.op in ('attr', 'meth') and d.args[1] in ('dtype', K('dtype')):
            return d.args[0]
    return None


def ndim(t):
    if t.op == 'sortd':
        return 1
    if t.op == 'reshape':
        f = parts_fixed(t.args[1])
        return len(f) if f is not None else None
    if t.op == 'array':
        f = parts_fixed(t.args[0])
        if f is None:
            return None
        if f and f[0].op == 'seq':
            d = ndim(raw('array', f[0]))
            return None if d is None else d + 1
        if f and all(ndim(x) is not None for x in f):
            return ndim(f[0]) + 1
        if f and (is_num(f[0]) or f[0].op == 'poly'):
            return 1
        return None
    if t.op == 'transpose':
        return ndim(t.args[0]) or len(int_tuple(t.args[1]))
    if t.op == 'moveaxis':
        return ndim(t.args[0])
    if t.op == 'fld':
        b = t.args[0]
        while b.op == 'sub' and (b.args[1].op in ('mask', 'slice', 'where_idx') or ndim(b.args[1]) == 1):
            b = b.args[0]
        if b.op == 'node' and is_k(b.args[1]) and is_k(t.args[1]):
            r = FIELD_NDIM.get((kval(b.args[1]), kval(t.args[1])))
            if r:
                return r
            return 1
        return None
    if t.op == 'sub':
        d = ndim(t.args[0])
        i = t.args[1]
        if d is None:
            return None
        if i.op in ('poly', 'sub', 'fld', 'unique', 'ite', 'concatenate', 'arange', 'indexin', 'sortd') and ndim(i):
            return d - 1 + ndim(i)
        if i.op in ('mask', 'slice', 'where_idx') or (i.op not in ('seq',) and T.kind(i) == 'arr'):
            return d
        if T.is_kint(i) or i.op == 'bv':
            return d - 1
        if i.op == 'seq':
            f = parts_fixed(i)
            if f is not None and i.args[0] == 'tuple' and not any(x is K(Ellipsis) for x in f):
                return d - sum(1 for x in f if T.is_kint(x) or x.op == 'bv')
            if i.args[0] == 'list':
                return d
        if i.op == 'sub' or i.op == 'poly':
            return None
        return None
    if t.op == 'dot':
        a, b = ndim(t.args[0]), ndim(t.args[1])
        return a + b - 2 if a and b and a > 1 else None
    if t.op == 'poly':
        ds = [ndim(b) for m, c in t.args[0] for b, e in m if T.kind(b) != 'num']
        ds = [d for d in ds if d is not None]
        return max(ds) if ds else None
    if t.op in ('setsub', 'astype', 'viewas', 'copy'):
        return ndim(t.args[0])
    if t.op in ('ones', 'zeros'):
        f = int_tuple(t.args[0])
        return len(f) if f else None
    if t.op in ('arange', 'unique', 'vec', 'searchsorted'):
        return 1
    if t.op == 'indexin':
        return ndim(t.args[1])
    if t.op == 'node' and is_k(t.args[1]):
        return NODE_NDIM.get(kval(t.args[1]))
    if t.op == 'ite':
        a, b = ndim(t.args[1]), ndim(t.args[2])
        return a if a == b else None
    if t.op == 'concatenate':
        ds = set(ndim(x) for x in listed(t.args[0]))
        return ds.pop() if len(ds) == 1 else None
    return None


def mk_transpose(x, perm):
    """perm: tuple of ints (full permutation)"""
    perm = tuple(perm)
    if perm == tuple(range(len(perm))):
        return x
    if x.op == 'transpose':
        p0 = int_tuple(x.args[1])
        return mk_transpose(x.args[0], tuple(p0[i] for i in perm))
    if x.op == 'ite':
        return lift(lambda v: mk_transpose(v, perm), x)
    return raw('transpose', x, seq('tuple', [K(i) for i in perm]))


def mk_moveaxis(x, src, dst):
    if x.op == 'ite':
        return lift(lambda v: mk_moveaxis(v, src, dst), x)
    n = ndim(x)
    if n is None:
        # a full permutation is not known; canonical single moves
        r = x
        if len(src) == 1:
            if src == dst:
                return x
            return raw('moveaxis', r, K(src[0]), K(dst[0]))
        return raw('moveaxis', r, seq('tuple', [K(i) for i in src]), seq('tuple', [K(i) for i in dst]))
    src = [s % n for s in src]
    dst = [d % n for d in dst]
    order = [k for k in range(n) if k not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return mk_transpose(x, order)


def mk_rollaxis(x, axis, start=0):
    n = ndim(x)
    if axis < 0:
        if n is None:
            return raw('rollaxis', x, K(axis), K(start))
        axis += n
    if start < 0:
        if n is None:
            return raw('rollaxis', x, K(axis), K(start))
        start += n
    if axis < start:
        start -= 1
    return mk_moveaxis(x, (axis,), (start,))


@T.register('reshape')
def mk_reshape(x, dims):
    return lift(_mk_reshape, x, dims)


def _mk_reshape(x, dims):
    if x.op == 'reshape':
        x = x.args[0]
    if not (dims.op == 'seq'):
        dims = seq('tuple', [dims])
    else:
        dims = raw('seq', 'tuple', *dims.args[1:])
    return raw('reshape', x, dims)


def map_array(t, f):
    """apply f to the entries of an array literal"""
    if t.op == 'array':
        return raw('array', map_array(t.args[0], f))
    if t.op == 'seq':
        return seq(t.args[0], [map_array(p, f) for p in t.args[1:]])
    return f(t)


def is_arr_lit(t):
    return t.op == 'array' and lit_ok(t.args[0])


def lit_ok(t):
    if t.op == 'seq':
        return all(lit_ok(p) for p in t.args[1:])
    return is_num(t) or t.op == 'poly' or t.op == 'sqrt'


@T.register('array')
def mk_array(x):
    if x.op == 'ite':
        return lift(mk_array, x)
    if x.op in ('array', 'poly', 'reshape', 'transpose', 'fld', 'node', 'dot', 'concatenate', 'unique', 'vec',
                'setsub', 'viewas', 'arange', 'ones', 'zeros', 'stack'):
        return x
    if x.op == 'sym' and x.args[-1] == 'arr' or x.op == 'sub' and T.kind(x) != 'num' and x.args[0].op in ('node', 'fld'):
        return x
    if x.op == 'seq' and x.args[0] == 'tuple':
        x = raw('seq', 'list', *x.args[1:])
    if x.op == 'seq':
        x = seq('list', [(raw('seq', 'list', *p.args[1:]) if p.op == 'seq' and p.args[0] == 'tuple' else p)
                         for p in x.args[1:]])
        if len(x.args) == 2 and x.args[1].op == 'seg':
            return mk_array(x.args[1].args[0])
    if x.op == 'map':
        v = vectorise(x)
        if v is not None:
            return v
    return raw('array', x)


def vectorise(x):
    """map(b<n: [e(A[b], ..)]) as an elementwise / masked array expression, or None"""
    b, n, body = x.args
    if body.op == 'seq' and len(body.args) == 2 and body.args[1].op != 'seg':
        e = elementwise(body.args[1], b, n)
        return e
    if body.op == 'ite' or (body.op == 'seq' and len(body.args) == 2 and body.args[1].op == 'seg'
                            and body.args[1].args[0].op == 'ite'):
        g = body if body.op == 'ite' else body.args[1].args[0]
        leaves, conds = set(), []
        keep = FALSE

        def go(t):
            if t.op == 'ite':
                return mk_ite_(t.args[0], go(t.args[1]), go(t.args[2]))
            if t.op == 'seq' and len(t.args) == 1:
                return FALSE
            leaves.add(t)
            return TRUE
        keep = go(g)
        if len(leaves) == 1:
            l, = leaves
            if l.op == 'seq' and len(l.args) == 2 and l.args[1].op != 'seg':
                e = elementwise(l.args[1], b, n)
                c = elem_cond(keep, b, n)
                if e is not None and c is not None:
                    return mk_sub(e, raw('mask', c))
    return None


def mk_ite_(atom, a, b):
    return mk_ite(raw('ite', atom, TRUE, FALSE), a, b)


def elem_cond(c, b, n):
    if c in (TRUE, FALSE):
        return c
    if c.op != 'ite':
        return None
    a = c.args[0]
    if a.op == 'in':
        x = elementwise(a.args[0], b, n)
        if x is None or b in fv(a.args[1]):
            return None
        at = mk_in(x, a.args[1])
    elif a.op == 'eq':
        x, y = elementwise(a.args[0], b, n), elementwise(a.args[1], b, n)
        if x is None or y is None:
            return None
        at = mk_eq(x, y)
    elif a.op == 'neg':
        x = elementwise(a.args[0], b, n)
        if x is None:
            return None
        at = mk_neg(x)
    else:
        return None
    t, f = elem_cond(c.args[1], b, n), elem_cond(c.args[2], b, n)
    if t is None or f is None:
        return None
    return mk_ite(at, t, f)


def elementwise(e, b, n):
    """e with every A[b] replaced by A, or None"""
    if b not in fv(e):
        return e
    if e.op == 'sub' and e.args[1] is b and b not in fv(e.args[0]) and seq_len(e.args[0]) is n:
        return e.args[0]
    if e is b:
        return raw('arange', n)
    if e.op == 'poly':
        m = {}
        for mono, c in e.args[0]:
            for x, ex in mono:
                r = elementwise(x, b, n)
                if r is None:
                    return None
                m[x] = r
        return subst(e, m)
    if e.op == 'sub' and b not in fv(e.args[0]):
        i = elementwise(e.args[1], b, n)
        if i is not None:
            return mk_sub(e.args[0], i)
    if e.op == 'dget' and b not in fv(e.args[0]):
        i = elementwise(e.args[1], b, n)
        if i is not None:
            return mk_dget(e.args[0], i)
    if e.op == 'indexin' and b not in fv(e.args[0]):
        i = elementwise(e.args[1], b, n)
        if i is not None:
            return mk_indexin(e.args[0], i)
    return None


@T.register('sub')
def mk_sub(o, i):
    return lift(_mk_sub, o, i)


def _mk_sub(o, i):
    if i.op == 'mask' and i.args[0] is TRUE:
        return o
    if i.op in ('where_idx',):
        i = i.args[0]
    if i.op == 'slice' and i.args == (NONE, NONE, NONE):
        return o
    if o.op == 'shape' and (i.op == 'slice' or T.is_kint(i) and kval(i) < 0):
        n = ndim(o.args[0])
        if n is None:
            return raw('call', 'shape of unknown rank', o, i)
        if i.op != 'slice':
            return raw('sub', o, K(n + kval(i)))
        if all(x is NONE or T.is_kint(x) for x in i.args):
            return seq('tuple', [raw('sub', o, K(k)) for k in range(n)[slice(*[None if x is NONE else kval(x) for x in i.args])]])
    if o.op == 'shape' and i is K(0) and ndim(o.args[0]) == 1:
        return seq_len(o.args[0])
    if o.op == 'txt':
        r = txt.item(o, i)
        if r is not None:
            return r
    if i.op == 'sub' and names_of(i.args[0]) is o:
        i = i.args[1]               # the field with the i-th name
    if i.op == 'seq' and i.args[0] == 'list' and len(i.args) == 2 and i.args[1].op == 'seg' and i.args[1].args[0].op == 'sortd':
        i = i.args[1].args[0]
    if i.op == 'seq' and i.args[0] == 'tuple':
        f = parts_fixed(i)
        if f is not None:
            while f and f[-1].op == 'slice' and f[-1].args == (NONE, NONE, NONE):
                f = f[:-1]
            if f and f[-1] is K(Ellipsis):
                f = f[:-1]
            if not f:
                return o
            if len(f) == 1:
                return _mk_sub(o, f[0])
            if all(x.op == 'slice' and x.args == (NONE, NONE, NONE) for x in f[:-1]) and is_array(f[-1]) and \
                    f[-1].op != 'mask':
                return raw('take', o, f[-1], K(len(f) - 1))
            i = seq('tuple', f)
    if is_k(i) and i.args[0] == 'str':
        return mk_fld(o, i)
    if i.op == 'seq' and i.args[0] == 'list':
        f = parts_fixed(i)
        if f and all(T.is_kstr(x) for x in f):
            return raw('flds', o, seq('tuple', f))
    if o.op in ('seq', 'Fs', 'k', 'array'):
        r = seq_item(o, i)
        if r is not None:
            return r
    if o.op == 'arange' and not (i.op in ('slice', 'mask', 'seq')):
        return i
    if o.op == 'range' and o.args[2] is K(1) and i.op not in ('slice', 'mask', 'seq'):
        return padd(o.args[0], i)
    if o.op == 'map' and o.args[2].op == 'seq' and len(o.args[2].args) == 2 and o.args[2].args[1].op != 'seg' \
            and i.op not in ('slice', 'mask', 'seq'):
        return subst(o.args[2].args[1], {o.args[0]: i})
    if o.op == 'poly' and i.op in ('mask', 'slice', 'bv', 'sub', 'unique', 'poly', 'fld'):
        # elementwise expression: index the operands
        m = {b: mk_sub(b, i) for mono, c in o.args[0] for b, e in mono if is_array(b)}
        if m and all(b in m or T.kind(b) == 'num' for mono, c in o.args[0] for b, e in mono):
            return subst_top(o, m)
    if o.op == 'vec' and i.op not in ('slice', 'mask', 'seq'):
        return mk_sub(o.args[0], i)
    if o.op == 'flds' and i.op != 'seq':
        return raw('flds', mk_sub(o.args[0], i), o.args[1])
    return raw('sub', o, i)


def is_array(t):
    if t.op in ('fld', 'unique', 'arange', 'reshape', 'concatenate', 'vec', 'node', 'indexin'):
        return True
    if t.op == 'poly':
        return any(is_array(b) for m, c in t.args[0] for b, e in m)
    if t.op == 'ite':
        return is_array(t.args[1]) and is_array(t.args[2])
    return t.op == 'sub' and (t.args[1].op in ('mask', 'slice') or is_array(t.args[1])) and T.kind(t) != 'num'


def subst_top(p, m):
    r = K(0)
    for mono, c in p.args[0]:
        tm = K(c)
        for b, e in mono:
            tm = pmul(tm, ppow(m.get(b, b), e))
        r = padd(r, tm)
    return r


@T.register('fld')
def mk_fld(o, name):
    return lift(_mk_fld, o, name)


def _mk_fld(o, name):
    # the field of selected rows is the selection of the field
    if o.op == 'sub' and o.args[1].op not in ('k',) or o.op == 'sub' and T.is_kint(o.args[1]):
        return mk_sub(mk_fld(o.args[0], name), o.args[1])
    if o.op == 'flds':
        return mk_fld(o.args[0], name)
    if o.op == 'seq' and o.args[0] == 'dict':
        for p in o.args[1:]:
            if p.args[1] is name:
                return p.args[2]
    if o.op == 'array' and o.args[0].op == 'map':
        b, n, body = o.args[0].args
    return raw('fld', o, name)


def unsubscriptable(o):
    return o is NONE or isinstance(kval(o), (bool, int, float))


def seq_item(o, i):
    """item / slice of a sequence with known head, or None"""
    if i in (TRUE, FALSE) and (o.op == 'k' or o.op == 'seq' and o.args[0] in ('list', 'tuple')):
        i = K(int(kval(i)))
    elif o.op == 'seq' and o.args[0] in ('list', 'tuple') and T.kind(i) == 'bool':
        f = parts_fixed(o)
        if f is not None and len(f) >= 2:
            return mk_ite(i, f[1], f[0])
    if o.op == 'array':
        o2 = o.args[0]
        if o2.op != 'seq':
            return None
        known = i.op == 'slice' and all(x is NONE or T.is_kint(x) for x in i.args) and \
            T.seq_fixed(o2) is not None and all(T.is_kint(x) for x in T.seq_fixed(o2))
        r = seq_item(o2, i) if T.is_kint(i) or known else None
        if r is not None and r.op == 'seq':
            return raw('array', r)
        return r
    if o.op == 'k':
        v = kval(o)
        if T.is_kint(i):
            try:
                return K(v[kval(i)])
            except IndexError:
                return None
        if i.op == 'slice' and all(is_k(x) for x in i.args):
            return K(v[slice(*[kval(x) for x in i.args])])
        return None
    if o.op == 'cat' and is_k(o.args[-1]) and (i.op == 'slice' and i.args[2] is NONE or T.is_kint(i)):
        tail, head = kval(o.args[-1]), list(o.args[:-1])
        if T.is_kint(i):
            return K(tail[kval(i)]) if -len(tail) <= kval(i) < 0 else None
        lo, hi = i.args[:2]
        neg = lambda x: T.is_kint(x) and -len(tail) <= kval(x) < 0      # noqa: E731
        if neg(lo) and (hi is NONE or neg(hi)):
            return K(tail[kval(lo):(None if hi is NONE else kval(hi))])
        if lo in (NONE, K(0)) and neg(hi):
            return mk_cat(head + [K(tail[:kval(hi)])])
        return None
    if i.op == 'slice':
        return seq_slice(o, i)
    f = parts_fixed(o)
    if f is None:
        return seq_index(o, i)
    if T.is_kint(i):
        k = kval(i)
        if -len(f) <= k < len(f):
            return f[k]
        return raw('nokey')
    if T.kind(i) in ('num', 'any') and i.op not in ('seq', 'mask', 'slice') and 0 < len(f) <= 12:
        r = raw('nokey')
        for k in range(len(f) - 1, -1, -1):
            r = mk_ite(eq_num(i, K(k)), f[k], r)
        return r
    return None


def seq_index(o, i):
    """item i of a sequence containing segments"""
    if o.op == 'Fs':
        if T.is_kint(i) and kval(i) < 0:
            return F(padd(padd(o.args[0], o.args[1]), i), o.args[2])
        if T.kind(i) in ('num', 'any') and i.op not in ('seq', 'mask'):
            return F(padd(o.args[0], i), o.args[2])
        return None
    parts = list(o.args[1:])
    if len(parts) == 1 and parts[0].op == 'seg' and from_node(parts[0].args[0]) and T.is_kint(i):
        return mk_sub(parts[0].args[0], i)
    if T.is_kint(i):
        k = kval(i)
        if k >= 0:
            for j, p in enumerate(parts):
                if p.op == 'seg':
                    s = p.args[0]
                    if j == len(parts) - 1 and s.op == 'Fs':
                        return F(padd(s.args[0], K(k)), s.args[2])
                    n = seq_len(s)
                    if is_num(n):
                        k -= int(kval(n))
                        if k < 0:
                            return None
                        continue
                    if s.op == 'Fs':
                        # inside the fields as long as they are contiguous
                        return F(padd(s.args[0], K(k)), s.args[2]) if False else None
                    return None
                if k == 0:
                    return p
                k -= 1
            return None
        k = -k
        for p in reversed(parts):
            if p.op == 'seg':
                return None
            k -= 1
            if k == 0:
                return p
    return None


def seq_slice(o, i):
    lo, hi, st = i.args
    if st not in (NONE, K(1)):
        f = parts_fixed(o)
        if f is not None and all(is_k(x) for x in i.args):
            return seq(o.args[0] if o.op == 'seq' else 'tuple', f[slice(*[kval(x) for x in i.args])])
        return None
    kd = o.args[0] if o.op == 'seq' else 'tuple'
    f = parts_fixed(o)
    if f is not None:
        if all(is_k(x) for x in (lo, hi)):
            return seq(kd, f[slice(kval(lo), kval(hi))])
        return None
    if o.op == 'Fs':
        base, n = o.args[0], o.args[1]
        a = K(0) if lo is NONE else lo
        b = n if hi is NONE else hi
        if is_num(a) and kval(a) < 0 or is_num(b) and kval(b) < 0:
            return None
        return Fs(padd(base, a), psub(b, a), o.args[2])
    # known head
    parts = list(o.args[1:])
    a = 0 if lo is NONE else (kval(lo) if T.is_kint(lo) else None)
    if a is None or a < 0:
        return None
    head = []
    for p in parts:
        if p.op == 'seg':
            break
        head.append(p)
    if hi is NONE and a <= len(head):
        return seq(kd, parts[a:])
    if T.is_kint(hi) and 0 <= kval(hi) <= len(head):
        return seq(kd, head[a:kval(hi)])
    # merged field slices: F.. contiguous from the start
    if len(parts) == 1 and parts[0].op == 'seg' and parts[0].args[0].op == 'Fs':
        r = seq_slice(parts[0].args[0], i)
        if r is not None:
            return seq(kd, [seg(r)])
    if hi is not NONE and not T.is_kint(hi):
        # everything up to the length of a prefix
        n = K(0)
        for k in range(len(parts) + 1):
            if n is hi and k >= a:
                return seq(kd, parts[a:k])
            if k < len(parts):
                p = parts[k]
                n = padd(n, seq_len(p.args[0]) if p.op == 'seg' else K(1))
    if lo is not NONE and not T.is_kint(lo) and hi is NONE:
        n = K(0)
        for k in range(len(parts) + 1):
            if n is lo:
                return seq(kd, parts[k:])
            if k < len(parts):
                p = parts[k]
                n = padd(n, seq_len(p.args[0]) if p.op == 'seg' else K(1))
    return None


@T.register('unique')
def mk_unique(x):
    return lift(_mk_unique, x)


def _mk_unique(x):
    if x.op in ('unique',):
        return x
    if x.op == 'sortd':
        x = x.args[0]
    return raw('unique', x)


@T.register('dot')
def mk_dot(a, b):
    return lift(lambda x, y: raw('dot', x, y), a, b)


@T.register('dget')
def mk_dget(d, k):
    return lift(_mk_dget, d, k)


def _mk_dget(d, k):
    if d.op == 'dictmap' and d.args[0] is NONE and d.args[5] is TRUE:
        b, kk, vv = d.args[1], d.args[3], d.args[4]
        if kk.op == 'sub' and kk.args[1] is b and kk.args[0].op == 'unique' and b not in fv(kk.args[0]) and \
                d.args[2] is seq_len(kk.args[0]):
            return subst(vv, {b: mk_indexin(kk.args[0], k)})     # the keys are distinct
    return raw('dget', d, k)


@T.register('indexin')
def mk_indexin(u, x):
    return lift(lambda a, b: raw('indexin', a, b), u, x)


@T.register('mask')
def _re_mask(c):
    return raw('mask', c)


@T.register('idiv')
def mk_idiv(a, b):
    return lift(_mk_idiv, a, b)


def _mk_idiv(a, b):
    if is_num(a) and is_num(b) and kval(b):
        return K(int((a.args[1] / b.args[1]).__floor__()))
    if b is K(1) and integral(a):
        return a
    if a.op == 'idiv' and is_num(b) and is_num(a.args[1]) and kval(b) > 0 and kval(a.args[1]) > 0:
        return raw('idiv', a.args[0], K(a.args[1].args[1] * b.args[1]))
    # (a % m) // d with m multiple of d:  (a // d) % (m // d)
    if a.op == 'mod' and is_num(b) and is_num(a.args[1]) and kval(b) > 0 and kval(a.args[1]) % kval(b) == 0:
        return _mk_mod(_mk_idiv(a.args[0], b), K(a.args[1].args[1] / b.args[1]))
    # constant multiples leave the division
    p = T.to_poly(a)
    if is_num(b) and kval(b) > 0:
        k = b.args[1]
        q = {m: c for m, c in p.items() if (c / k).denominator == 1 and integral(T.from_poly({m: Fraction(1)}))}
        if q and len(q) < len(p):
            rest = T.from_poly({m: c for m, c in p.items() if m not in q})
            return padd(T.from_poly({m: c / k for m, c in q.items()}), _mk_idiv(rest, b))
        if q and len(q) == len(p):
            return T.from_poly({m: c / k for m, c in q.items()})
    return raw('idiv', a, b)


@T.register('mod')
def mk_mod(a, b):
    return lift(_mk_mod, a, b)


def _mk_mod(a, b):
    if is_num(a) and is_num(b) and kval(b):
        return K(a.args[1] % b.args[1])
    if a.op == 'mod' and is_num(b) and is_num(a.args[1]) and kval(b) > 0 and (a.args[1].args[1] / b.args[1]).denominator == 1:
        return _mk_mod(a.args[0], b)
    # a - k*(a // k) == a % k is recognised in binop
    return raw('mod', a, b)


def unmod(p):
    """x - k*(x//k) -> x % k inside a polynomial"""
    if p.op != 'poly':
        return p
    d = dict(p.args[0])
    for m, c in list(d.items()):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'idiv':
            x, k = m[0][0].args
            if is_num(k) and c == -k.args[1]:
                xm = T.to_poly(x)
                if all(d.get(mm, 0) == cc for mm, cc in xm.items()):
                    r = dict(d)
                    del r[m]
                    for mm in xm:
                        del r[mm]
                    return padd(T.from_poly(r), mk_mod(x, k))
    return p


# ---------------------------------------------------------------- conditions of table queries
def parse_query(node, cond):
    """elementwise condition of a PyTables query string over the columns of node"""
    if cond.op == 'ite':
        return lift(lambda c: parse_query(node, c), cond)
    parts = list(cond.args) if cond.op == 'cat' else [cond]
    text, holes = '', []
    for p in parts:
        if is_k(p):
            text += kval(p)
        else:
            text += '__%d' % len(holes)
            holes.append(p)
    try:
        e = ast.parse(text.strip(), mode='eval').body
    except SyntaxError:
        return T.atom('opq', raw('query', node, cond))

    def val(n):
        if isinstance(n, ast.Name):
            if n.id.startswith('__'):
                h = holes[int(n.id[2:])]
                return h.args[0] if h.op == 'fmt' else h
            if n.id.startswith('b__'):
                h = holes[int(n.id[3:])]
                return raw('asbytes', h.args[0] if h.op == 'fmt' else h)
            return mk_fld(node, K(n.id))
        if isinstance(n, ast.Constant):
            return K(n.value)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return psub(K(0), val(n.operand))
        raise Unsupported('query operand in %r' % text)

    def go(n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            f = c_and if isinstance(n.op, ast.BitAnd) else c_or
            return f(go(n.left), go(n.right))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
            return c_not(go(n.operand))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = val(n.left), val(n.comparators[0])
            return cmp_terms(type(n.ops[0]).__name__, a, b)
        raise Unsupported('query %r' % text)
    return go(e)


def cmp_terms(op, a, b):
    if op == 'Eq':
        return mk_eq(a, b)
    if op == 'NotEq':
        return c_not(mk_eq(a, b))
    d = psub(a, b)
    if op == 'Lt':
        return mk_neg(d)
    if op == 'GtE':
        return c_not(mk_neg(d))
    d = psub(b, a)
    if op == 'Gt':
        return mk_neg(d)
    if op == 'LtE':
        return c_not(mk_neg(d))
    raise Unsupported('comparison %s' % op)


def itemsize(n):
    if n == 'bool':
        return 1
    return int(n.lstrip('abcdefghijklmnopqrstuvwxyz')) // 8


DTYPES = {'u1': 'uint8', 'i1': 'int8', 'u2': 'uint16', 'i2': 'int16', 'u4': 'uint32', 'i4': 'int32', 'u8': 'uint64', 'i8': 'int64',
          'f4': 'float32', 'f8': 'float64', 'int': 'int64', 'float': 'float64'}


def dtype_name(t):
    if t.op == 'dtype':
        return kval(t.args[0])
    if t.op == 'call' and t.args[0] == 'numpy.dtype' and len(t.args) == 2:
        return dtype_name(t.args[1])
    n = kval(t) if T.is_kstr(t) else t.args[0].replace('numpy.', '') if t.op == 'ext' else None
    if not isinstance(n, str) or n[:1] == '>':
        return None
    n = n.lstrip('<=|')
    n = DTYPES.get(n, n)
    return n if n in DTYPES.values() or n in ('bool', 'complex64', 'complex128', 'float16') else None


# =====================================================================================================
# functions of numpy whose result may share memory with their argument
SHARING = {'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'expand_dims', 'broadcast_to', 'real', 'imag', 'diag', 'diagonal', 'require',
           'nan_to_num', 'split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'real_if_close', 'flip', 'fliplr', 'flipud', 'rot90', 'ravel',
           'reshape', 'asarray_chkfinite', 'matrix_transpose', 'permute_dims', 'broadcast_arrays', 'trim_zeros'}


class Model(object):
    @staticmethod
    def leaves_(t):
        return leaves(t)

    def __init__(self, interp):
        self.I = interp

    # helpers shared with the interpreter
    eq = staticmethod(mk_eq)
    cat = staticmethod(cat_ite)
    fmt = staticmethod(mk_fmt)

    EXTNAMES = {'np': 'numpy', 'tb': 'tables', 'numpy.mod': 'numpy.mod', 'os.path': 'path', 'posixpath': 'path',
                'io.open': 'open', 'tables.exceptions.NoSuchNodeError': 'tables.NoSuchNodeError',
                'tables.openFile': 'tables.open_file', 'numpy.linalg': 'numpy.linalg', 'math.pi': 'numpy.pi',
                'tables.file.File': 'tables.File', 'tables.file._open_files': 'tables._open_files'}

    def extname(self, name):
        return self.EXTNAMES.get(name, name)

    def builtin(self, name):
        if name == 'NotImplemented' or name == '__debug__':
            return ext(name)
        if name in ('__name__',):
            return K('freesif')
        if name in BUILTINS:
            return ext(name)
        if name == '__file__':
            return raw('sym', '__file__', 'str')
        return None

    def D(self, t):
        return self.I.D(t)

    # ------------------------------------------------------------ numbers
    def ceildiv(self, a, b):
        if is_num(b) and b.args[1] < 0:
            a, b = psub(K(0), a), K(-b.args[1])
        if b is K(1):
            return a
        return mk_idiv(padd(a, psub(b, K(1))), b)

    integral = staticmethod(integral)

    def nonneg(self, n):
        """max(n, 0); the count of a loop"""
        if is_num(n):
            return n if n.args[1] > 0 else K(0)
        return n

    def minlen(self, ns):
        ns = [n for n in ns if n.op != 'inf']
        u = []
        for n in ns:
            if n not in u:
                u.append(n)
        # a record has as many items as names
        whose = [names_of(n.args[0]) for n in u if n.op == 'len']
        u = [n for n in u if not (n.op == 'len' and n.args[0] in whose)]
        if len(u) == 1:
            return u[0]
        # zip over columns of one table: same length
        return raw('minlen', *sorted(u, key=lambda x: x.id))

    def item(self, t, i):
        return mk_sub(t, i)

    def neg(self, v):
        if v.op == 'mask':
            return raw('mask', c_not(v.args[0]))
        if is_arr_lit(v):
            return map_array(v, lambda x: psub(K(0), x))
        return psub(K(0), v)

    def invert(self, v):
        if v.op == 'mask':
            return raw('mask', c_not(v.args[0]))
        return self.call_pure('invert', [v])

    def num(self, v):
        if v.op == 'ref' and v.args[1] == 'box':
            return self.I.content(v)
        return self.D(v)

    def call_pure(self, name, args):
        self.I.unknown.add(name)
        return raw('call', name, *args)

    def binop(self, op, a, b):
        I = self.I
        if a.op == 'ite' and has_ref_(a):
            return I.lift_ref(a, lambda x: self.binop(op, x, b))
        if b.op == 'ite' and has_ref_(b):
            return I.lift_ref(b, lambda x: self.binop(op, a, x))
        # user operators
        for x, y, nm in ((a, b, '__%s__'), (b, a, '__r%s__')):
            if x.op == 'ref' and x.args[1] == 'inst':
                nmx = nm % {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul'}.get(op, 'none')
                if I.find_attr(I.inst_class(x), nmx) is not None:
                    return I.call(I.getattr(x, nmx), [y], {})
        seqlike = lambda t: (t.op == 'ref' and t.args[1] == 'list') or (      # noqa: E731
            t.op != 'ref' and T.kind(t) == 'seq')
        if op == 'Add':
            if a.op == 'ref' and a.args[1] == 'list' or b.op == 'ref' and b.args[1] == 'list':
                return I.new_ref('list', seq('list', as_parts(I.as_seq(a)) + as_parts(I.as_seq(b))))
            ka = 'seq' if seqlike(a) else T.kind(a)
            kb = 'seq' if seqlike(b) else T.kind(b)
            if ka == 'seq' or kb == 'seq':
                a, b = self.D(a), self.D(b)
                return lift(lambda x, y: seq('tuple', as_parts(x) + as_parts(y)), a, b)
            if ka in ('str', 'bytes') or kb in ('str', 'bytes'):
                return self.cat([self.D(a), self.D(b)])
            if a.op == 'ite' and any(T.kind(x) == 'seq' for x in leaves(a)):
                return lift(lambda x, y: seq('tuple', as_parts(x) + as_parts(y)), self.D(a), self.D(b))
        islist = op == 'Mult' and any(x.op == 'ref' and x.args[1] == 'list' for x in (a, b))
        a, b = self.num(a), self.num(b)
        r = lift(lambda x, y: self._binop(op, x, y), a, b)
        if islist and r.op == 'seq':
            return I.new_ref('list', I.as_seq(r, 'list'))
        return r

    def _binop(self, op, a, b):
        if op == 'BitOr' and a.op == 'seq' and a.args[0] in ('set', 'dict') or \
                op == 'BitOr' and a.op in ('union', 'setof'):
            return self.set_union(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            ca, cb = self.as_cond(a), self.as_cond(b)
            if ca is not None and cb is not None:
                mask = a.op == 'mask' or b.op == 'mask'
                r = c_and(ca, cb) if op == 'BitAnd' else c_or(ca, cb) if op == 'BitOr' else \
                    mk_ite(ca, c_not(cb), cb)
                return raw('mask', r) if mask else r
            return raw('call', op, a, b)
        if op == 'Mod' and T.kind(a) in ('str', 'bytes'):
            return self.percent(a, b)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if T.kind(x) == 'seq' and x.op == 'seq':
                    if T.is_kint(y) and kval(y) <= 64:
                        return seq(x.args[0], list(x.args[1:]) * kval(y))
                    f = raw('bv', 10 ** 7 + x.id)
                    from .interp import mk_map
                    return seq(x.args[0], [seg(mk_map(f, y, x))])
                if T.kind(x) in ('str', 'bytes'):
                    if is_k(x) and T.is_kint(y):
                        return K(kval(x) * kval(y))
                    return raw('call', 'strmul', x, y)
        if a.op == 'seq' and a.args[0] == 'set' and op == 'Sub':
            return raw('call', 'setminus', a, b)
        # array literals
        if is_arr_lit(a) or is_arr_lit(b):
            r = self.lit_op(op, a, b)
            if r is not None:
                return r
        if op == 'Add':
            return unmod(padd(a, b))
        if op == 'Sub':
            return unmod(psub(a, b))
        if op == 'Mult':
            return pmul(a, b)
        if op == 'Div':
            return pdiv(a, b)
        if op == 'FloorDiv':
            return mk_idiv(a, b)
        if op == 'Mod':
            return mk_mod(a, b)
        if op == 'Pow':
            if is_num(b):
                return ppow_half(a, b.args[1])
            return raw('call', 'pow', a, b)
        if op == 'MatMult':
            na, nb = ndim(a), ndim(b)
            if (na is None or na <= 2) and (nb is None or nb <= 2):
                return mk_dot(a, b)
            return raw('call', 'matmul', a, b)
        return raw('call', op, a, b)

    def lit_op(self, op, a, b):
        f = {'Add': padd, 'Sub': psub, 'Mult': pmul, 'Div': pdiv}.get(op)
        if f is None:
            return None
        if is_arr_lit(a) and (is_num(b) or b.op == 'poly' and T.kind(b) == 'num' and not is_arr_poly(b)):
            return map_array(a, lambda x: f(x, b))
        if is_arr_lit(b) and (is_num(a) or a.op == 'poly' and not is_arr_poly(a)):
            return map_array(b, lambda x: f(a, x))
        if is_arr_lit(a) and is_arr_lit(b):
            x, y = parts_fixed(a.args[0]), parts_fixed(b.args[0])
            if x and y and len(x) == len(y):
                z = []
                for p, q in zip(x, y):
                    if p.op == 'seq' and q.op == 'seq':
                        r = self.lit_op(op, raw('array', p), raw('array', q))
                        if r is None:
                            return None
                        z.append(r.args[0])
                    elif p.op == 'seq' or q.op == 'seq':
                        return None
                    else:
                        z.append(f(p, q))
                return raw('array', seq('list', z))
        return None

    def as_cond(self, t):
        if t.op == 'mask':
            return t.args[0]
        if is_diag_(t):
            return t
        return None

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        I = self.I
        if op in ('In', 'NotIn'):
            c = self.contains(a, b)
            return c if op == 'In' else c_not(c)
        if op in ('Is', 'IsNot'):
            c = self.is_(a, b)
            return c if op == 'Is' else c_not(c)
        if a.op == 'ref' and a.args[1] == 'inst' and I.find_attr(I.inst_class(a), '__eq__') is not None \
                and op in ('Eq', 'NotEq'):
            c = I.truth(I.call(I.getattr(a, '__eq__'), [b], {}))
            return c if op == 'Eq' else c_not(c)
        a, b = self.D(a), self.D(b)
        arr = self.elementwise_cmp(a, b)
        if a.op == 'pfun' or b.op == 'pfun':
            raise Unsupported('comparison of functions')
        c = lift(lambda x, y: cmp_terms(op, x, y) if not strings(x, y) or op in ('Eq', 'NotEq')
                 else T.atom('opq', raw('call', op, x, y)), a, b)
        return raw('mask', c) if arr else c

    def elementwise_cmp(self, a, b):
        if self.I.shaper is not None and any(x.op not in ('k', 'seq', 'poly') and self.I.shaper(x) for x in (a, b)):
            return True
        return is_array(a) and T.kind(a) != 'num' and b.op != 'seq' and (a.op != 'node') or \
            is_array(b) and b.op != 'node' and a.op != 'seq'

    def is_(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'ite':
            return mk_ite(cond_of(a), self.is_(a.args[1], b), self.is_(a.args[2], b))
        if b.op == 'ite':
            return mk_ite(cond_of(b), self.is_(a, b.args[1]), self.is_(a, b.args[2]))
        if b is NONE or b in (TRUE, FALSE):
            if a.op == 'ref':
                return FALSE
            if b is NONE:
                return mk_eq(a, b)
            if is_diag_(a):
                return a if b is TRUE else c_not(a)
            return mk_eq(a, b)
        if a is NONE:
            return self.is_(b, a)
        if a.op in ('ref', 'py') and b.op in ('ref', 'py'):
            return FALSE
        return mk_eq(a, b)

    def contains(self, x, s):
        I = self.I
        if s.op == 'ite' and has_ref_(s):
            return I.lift_ref(s, lambda v: self.contains(x, v))
        if s.op == 'ref':
            k = s.args[1]
            if k == 'inst':
                f = I.find_attr(I.inst_class(s), '__contains__')
                if f is not None:
                    return I.truth(I.call(I.getattr(s, '__contains__'), [x], {}))
                raise Unsupported('in')
            s = self.D(s)
        return mk_in(self.D(x), self.D(s))

    def land(self, a, b):
        return c_and(a, b)

    def truth(self, v):
        I = self.I
        if v.op == 'ite' and not is_diag_(v):
            return mk_ite(cond_of(v), self.truth(v.args[1]), self.truth(v.args[2]))
        if v.op == 'ref':
            k = v.args[1]
            if k == 'inst':
                c = I.inst_class(v)
                for nm in ('__bool__', '__nonzero__', '__len__'):
                    if I.find_attr(c, nm) is not None:
                        return self.truth(I.call(I.getattr(v, nm), [], {}))
                return TRUE
            if k == 'iter':
                return TRUE
            return mk_truth(self.D(v))
        if is_diag_(v):
            return v
        return mk_truth(v)

    # ------------------------------------------------------------ containers
    def dict_fixed(self, d):
        if d.op == 'seq' and d.args[0] == 'dict':
            return [(p.args[1], p.args[2]) for p in d.args[1:]]
        return None

    def dict_fixed_or_fail(self, d):
        r = self.dict_fixed(d)
        if r is None:
            raise Unsupported('unpacking of an unknown dict')
        return r

    def dict_items_set(self, cols, d):
        return cols + self.dict_fixed_or_fail(d)

    def dict_set(self, d, k, v):
        if d.op == 'ite':
            return mk_ite(cond_of(d), self.dict_set(d.args[1], k, v), self.dict_set(d.args[2], k, v))
        if d.op == 'seq' and d.args[0] == 'dict':
            out = list(d.args[1:])
            for j, p in enumerate(out):
                c = mk_eq(p.args[1], k)
                if c is TRUE:
                    out[j] = raw('seq', 'tuple', k, v)
                    return raw('seq', 'dict', *out)
                if c is not FALSE:
                    return raw('dstore', d, k, v)
            return raw('seq', 'dict', *(out + [raw('seq', 'tuple', k, v)]))
        if d.op == 'dstore':
            c = mk_eq(d.args[1], k)
            if c is TRUE:
                return self.dict_set(d.args[0], k, v)
            if c is FALSE and d.args[1].id > k.id:
                return raw('dstore', self.dict_set(d.args[0], k, v), d.args[1], d.args[2])
        return raw('dstore', d, k, v)

    def dict_get(self, d, k, default=None):
        """value for key; default None: KeyError"""
        if k.op == 'ite':
            return self.I.branch(cond_of(k), lambda: self.dict_get(d, k.args[1], default),
                                 lambda: self.dict_get(d, k.args[2], default))
        if d.op == 'ite':
            return self.I.branch(cond_of(d), lambda: self.dict_get(d.args[1], k, default),
                                 lambda: self.dict_get(d.args[2], k, default))
        hit, val = self.lookup(d, k)
        if hit is TRUE:
            return val
        if default is None:
            self.I.maybe_raise('KeyError', c_not(hit))
            if hit is FALSE:
                if val is None:
                    self.I.do_raise(raw('exc', 'KeyError'))
            return val
        if hit is FALSE:
            return default
        return mk_ite(hit, val, default)

    def lookup(self, d, k):
        if d.op == 'seq' and d.args[0] == 'dict':
            hit, val = FALSE, None
            for p in d.args[1:]:
                c = mk_eq(k, p.args[1])
                if c is TRUE:
                    return TRUE, p.args[2]
                if c is FALSE:
                    continue
                val = p.args[2] if val is None else mk_ite(c, p.args[2], val)
                hit = c_or(hit, c)
            return hit, val
        if d.op == 'dstore':
            c = mk_eq(k, d.args[1])
            if c is TRUE:
                return TRUE, d.args[2]
            h, v = self.lookup(d.args[0], k)
            if c is FALSE:
                return h, v
            return c_or(c, h), d.args[2] if v is None else mk_ite(c, d.args[2], v)
        return T.atom('in', k, d), mk_dget(d, k)

    def mk_dictmap(self, init, i, n, k, v, c):
        from .interp import mk_bind
        if init.op == 'seq' and len(init.args) == 1:
            init = NONE
        b, n, k, v, c = mk_bind(i, n, k, v, c)
        return raw('dictmap', init, b, n, k, v, c)

    def set_union(self, a, b):
        if b.op == 'seq':
            items = list(a.args[1:]) if a.op == 'seq' else None
            if items is not None and not any(p.op == 'seg' for p in b.args[1:]):
                for p in b.args[1:]:
                    if p not in items:
                        items.append(p)
                return raw('seq', 'set', *items)
            if len(b.args) == 1:
                return a
        if a.op == 'seq' and len(a.args) == 1:
            return b
        if b.op == 'seq' and all(p.op == 'seg' for p in b.args[1:]):
            for p in b.args[1:]:
                a = self.set_union(a, raw('setof', p.args[0]))
            return a
        return raw('union', a, b)

    def seq_set(self, c, i, v):
        f = parts_fixed(c)
        if f is not None and T.is_kint(i) and -len(f) <= kval(i) < len(f):
            f[kval(i)] = v
            return raw('seq', c.args[0], *f)
        if f is not None and T.is_kint(i):
            self.I.do_raise(raw('exc', 'IndexError'))
        return raw('setsub', c, i, self.D(v))

    def arr_setitem(self, c, i, v):
        full = raw('slice', NONE, NONE, NONE)
        if i is full or i is K(Ellipsis) or (i.op == 'seq' and all(x is full for x in i.args[1:])):
            return mk_array(v) if v.op != 'k' else raw('setsub', c, full, v)
        if c.op == 'seq':
            return self.seq_set(c, i, v)
        return raw('setsub', c, i, v)

    def is_view_index(self, i):
        if i.op == 'slice':
            return True
        if i.op == 'seq' and i.args[0] == 'tuple':
            return all(x.op == 'slice' or T.is_kint(x) or x is K(Ellipsis) for x in i.args[1:])
        return T.is_kint(i) or i.op == 'bv'

    def is_basic_index(self, i):
        """indexing that gives a view (of whatever shape)"""
        if i.op == 'seq' and i.args[0] == 'tuple':
            return all(self.is_basic_index(x) for x in i.args[1:])
        return i.op == 'slice' or i is NONE or i is K(Ellipsis) or T.is_kint(i)

    def is_buffer(self, c):
        return c.op == 'buffer'

    def buffer_of(self, c):
        return c.args[0]

    def delitem(self, b, i):
        I = self.I
        i = self.D(i)
        if b.op == 'ref' and b.args[1] == 'dict':
            c = I.content(b)
            f = self.dict_fixed(c)
            if f is not None and is_k(i) and all(is_k(k) for k, _ in f):
                I.st[('c', b)] = raw('seq', 'dict', *[raw('seq', 'tuple', k, v) for k, v in f if k is not i])
                return
            if c.op == 'dictmap' and c.args[0] is None or c.op == 'dictmap' and c.args[0] is NONE:
                init, v, n, key, val, cond = c.args
                I.st[('c', b)] = raw('dictmap', init, v, n, key, val, T.c_and(cond, T.c_not(self.eq(key, i))))
                return
            I.st[('c', b)] = raw('ddel', c, i)
            return
        if b.op == 'ref' and b.args[1] == 'list':
            f = parts_fixed(I.content(b))
            if f is not None and T.is_kint(i):
                del f[kval(i)]
                I.st[('c', b)] = seq('list', f)
                return
            if f is not None and i.op == 'slice' and all(is_k(x) for x in i.args):
                del f[slice(*[kval(x) for x in i.args])]
                I.st[('c', b)] = seq('list', f)
                return
            if i.op == 'slice' and i.args == (NONE, NONE, NONE):
                I.st[('c', b)] = seq('list', [])
                return
            raise Unsupported('del of list items')
        if b.op == 'ref' and b.args[1] == 'inst':
            I.call(I.getattr(b, '__delitem__'), [i], {})
            return
        if b.op == 'ite':
            I.lift_ref(b, lambda x: (self.delitem(x, i), NONE)[1])
            return
        if b.op == 'instdict' and is_k(i):
            I.st[('a', b.args[0], kval(i))] = raw('deleted')
            return
        I.emit('delitem', self.D(b), i)

    # ------------------------------------------------------------ attributes and items
    def getattr(self, o, name):
        I = self.I
        if o.op == 'ext':
            n = self.extname(o.args[0] + '.' + name)
            if n in ('numpy.pi',):
                return raw('sym', 'pi', 'num')
            if n == 'numpy.newaxis':
                return NONE
            if n in ('numpy.inf', 'numpy.nan', 'math.inf', 'math.nan'):
                return K(float(n[-3:]))
            if n[:3] == 're.' and n[3:] in ('I', 'X', 'A', 'S', 'M', 'IGNORECASE', 'VERBOSE', 'ASCII', 'DOTALL', 'MULTILINE',
                                            'UNICODE', 'U'):
                import re
                return K(int(getattr(re, n[3:])))
            if n in ('sys.version_info',):
                return seq('tuple', [K(3), K(12), K(0)])
            return ext(n)
        if o.op == 'ref':
            k = o.args[1]
            if k == 'box':
                r = self.arr_attr(I.content(o), name)
                if r is not None:
                    if name in ('T', 'real', 'imag', 'flat'):
                        return I.new_box(r, set(I.prov.get(o, ())) | {o})
                    return r
            return raw('meth', o, name)
        if o.op == 'superobj':
            return raw('meth', o, name)
        r = self.arr_attr(o, name)
        if r is not None:
            return r
        if o.op == 'node' and name == 'name' and is_k(o.args[1]):
            return o.args[1]
        if o.op == 'node' and name in ('nrows', 'shape'):
            if name == 'nrows':
                return raw('len', o)
        if o.op in ('txt', 'stripped') or o.op == 'k' and o.args[0] in ('str', 'bytes'):
            return raw('meth', o, name)
        if o.op in ('seq', 'cat', 'fmt', 'Fs', 'poly', 'len', 'F', 'exc'):
            if o is NONE:
                pass
            return raw('meth', o, name)
        if o is NONE:
            I.emit('noattr', K('None'), K(name))
            I.do_raise(raw('exc', 'AttributeError'))
        return raw('attr', o, name)

    def declared(self, c):
        """(shape, name of dtype) of an array term derived from declared arrays"""
        d = self.I.arrays.get(c)
        if d is not None:
            return d
        if c.op in ('setsub', 'copy'):
            return self.declared(c.args[0])
        if c.op == 'astype':
            d, n = self.declared(c.args[0]), dtype_name(c.args[1])
            return (d[0], n) if d and n else None
        if c.op == 'array' and c.args[0].op == 'seq' and T.seq_fixed(c.args[0]) is not None:
            f = T.seq_fixed(c.args[0])
            if all(T.is_kint(x) for x in f):
                return (K(len(f)),), 'int64'
            return None
        if c.op == 'reshape':
            d = self.declared(c.args[0])
            f = parts_fixed(c.args[1])
            if d and f is not None and len(f) == 1:
                n = K(1)
                for x in d[0]:
                    n = pmul(n, x)
                return (n,), d[1]
        if c.op == 'transpose':
            d = self.declared(c.args[0])
            f = int_tuple(c.args[1])
            return (tuple(d[0][i] for i in f), d[1]) if d and f else None
        if self.I.shaper is not None and (c.op in ('sub', 'reshape', 'setsub', 'stack', 'poly', 'empty', 'zeros', 'ones', 'eigval', 'concatenate', 'vif')
                                          or c.op == 'call' and isinstance(c.args[0], str)):
            s = self.I.shaper(c)
            return (tuple(K(x) for x in s), 'float64') if s is not None else None
        return None

    def arr_attr(self, c, name):
        if self.I.arrays and name in ('ndim', 'shape', 'size', 'dtype', 'itemsize', 'nbytes', 'T'):
            d = self.declared(c)
            if d is not None:
                if name == 'T':
                    return mk_transpose(c, tuple(range(len(d[0])))[::-1])
                n = K(1)
                for x in d[0]:
                    n = pmul(n, x)
                return {'ndim': lambda: K(len(d[0])), 'shape': lambda: seq('tuple', list(d[0])), 'size': lambda: n,
                        'dtype': lambda: raw('dtype', K(d[1])), 'itemsize': lambda: K(itemsize(d[1])),
                        'nbytes': lambda: pmul(n, K(itemsize(d[1])))}[name]()
        if c.op == 'dtype':
            n = kval(c.args[0])
            if name == 'name':
                return K(n)
            if name in ('itemsize', 'alignment'):
                return K(itemsize(n))
            if name == 'kind':
                return K({'complex': 'c', 'float': 'f', 'uint': 'u', 'int': 'i', 'bool': 'b'}[n.rstrip('0123456789')])
            if name in ('str', 'descr'):
                raise Unsupported('dtype.' + name)
        if c.op == 'ite' and name in ('shape', 'T', 'ndim', 'size'):
            return lift(lambda x: self.arr_attr(x, name), c)
        if name == 'shape':
            if c.op == 'reshape':
                f = parts_fixed(c.args[1])
                if f is not None and not any(x is K(-1) for x in f):
                    return c.args[1]
            return raw('shape', c)
        if name == 'T':
            n = ndim(c)
            if n == 1:
                return c
            if n is None:
                if c.op == 'T':
                    return c.args[0]
                return raw('T', c)
            return mk_transpose(c, tuple(reversed(range(n))))
        if name == 'size' and ndim(c) == 1:
            return seq_len(c)
        if name == 'ndim':
            n = ndim(c)
            return K(n) if n is not None else raw('attr', c, 'ndim')
        return None

    def setattr(self, o, name, v):
        I = self.I
        v = self.D(v)
        if o.op == 'ref' and o.args[1] == 'box':
            c = I.content(o)
            if name == 'shape':
                I.st[('c', o)] = mk_reshape(c, v)
                return
            if name == 'dtype':
                I.st[('c', o)] = raw('viewas', c, v)
                return
        I.emit('setattr', self.D(o), K(name), v)

    def getitem(self, o, i):
        I = self.I
        i = self.D(i)
        if is_k(o) and unsubscriptable(o):
            I.do_raise(raw('exc', 'TypeError'))
        if o.op == 'ite':
            c = lift(lambda x: TRUE if is_k(x) and unsubscriptable(x) else FALSE, o)
            if c is not FALSE:
                I.do_raise(raw('exc', 'TypeError'), c)
        if i.op == 'ite':
            if o.op in ('dictmap', 'dstore') or o.op == 'seq' and o.args[0] == 'dict':
                return self.dict_get(o, i)
            return lift(lambda x, y: mk_sub(x, y), o, i)
        if o.op == 'seq' and o.args[0] == 'dict' or o.op in ('dstore', 'dictmap', 'ddel'):
            return self.dict_get(o, i)
        if o.op == 'seq' and T.is_kint(i):
            f = parts_fixed(o)
            if f is not None and not -len(f) <= kval(i) < len(f):
                I.do_raise(raw('exc', 'IndexError'))
        if o.op == 'buffer':
            return self.buffer_item(o, i)
        return mk_sub(o, i)

    def buffer_item(self, o, i):
        return raw('bufslice', o, i)

    def setitem(self, o, i, v):
        if o.op in ('seq', 'array', 'dictmap', 'dstore', 'ite'):
            raise Unsupported('assignment to an item of a value without identity')
        self.I.emit('setitem', self.D(o), self.D(i), self.D(v))

    # ------------------------------------------------------------ calls
    def norm_args(self, names, args, kw, defaults):
        vals = dict(defaults)
        for n, a in zip(names, args):
            vals[n] = a
        for k, v in kw.items():
            vals[k] = v
        return vals

    def call_ext(self, name, args, kw):
        I = self.I
        h = I.hooks.get(name)
        if h is not None:
            return h(args, kw)
        short = name
        if name.startswith('numpy.'):
            short = 'np_' + name[6:].replace('.', '_')
        elif name.startswith('path.'):
            short = 'path_' + name[5:]
        elif '.' in name:
            short = name.replace('.', '_')
        f = getattr(self, 'x_' + short, None)
        if f is not None:
            return f(args, kw)
        if name in T_EXC:
            return raw('exc', name)
        a = [self.D(x) for x in args]
        for k in sorted(kw):
            a.append(raw('kw', k, self.D(kw[k])))
        if name.startswith('numpy.'):
            I.unknown.add(name)
            r = raw('call', name, *a)
            if name[6:] in SHARING and args and args[0].op == 'ref' and args[0].args[1] == 'box':
                return self.box(r, args[0])
            return r
        if name.split('.')[0] == 'tables' and name.split('.')[-1][0].isupper():
            return raw('call', name, *a)
        if name.split('.')[0] in ('math', 're', 'struct', 'path', 'itertools', 'functools', 'operator', 'string',
                                  'base64', 'collections'):
            I.unknown.add(name)
            return raw('call', name, *a)
        I.unknown.add(name)
        r = raw('call', name, *a)
        I.emit('call', r)
        return r

    def call_unknown(self, f, args, kw):
        if f.op == 'attr':
            return self.call_method(f.args[0], f.args[1], args, kw)
        if f.op == 'vectorized':
            return self.apply_vec(f, args)
        a = [self.D(x) for x in args]
        for k in sorted(kw):
            a.append(raw('kw', k, self.D(kw[k])))
        r = raw('call', self.D(f), *a)
        self.I.emit('call', r)
        return r

    def call_opaque(self, f, args, kw):
        a = [self.D(x) for x in args] + [raw('kw', k, self.D(kw[k])) for k in sorted(kw)]
        r = raw('call', 'rec:' + f.name, *a)
        self.I.emit('call', r)
        return r

    # ---- methods
    def call_method(self, o, name, args, kw):
        I = self.I
        if o.op == 'ite':
            return I.lift_ref(o, lambda x: self.call_method(x, name, args, kw) if x.op != 'ref' or
                              x.args[1] != 'inst' else I.call(I.getattr(x, name), args, kw))
        for key in ((o, name), ('*', name)):
            h = I.hooks.get(key)
            if h is not None:
                r = h(o, args, kw)
                if r is not NotImplemented:
                    return r
        if o.op == 'ref' and o.args[1] != 'inst':
            k = o.args[1]
            f = getattr(self, 'm_%s_%s' % (k, name), None)
            if f is not None:
                return f(o, args, kw)
            if k == 'box':
                c = I.content(o)
                r = self.method(c, name, args, kw)
                if name in ('reshape', 'transpose', 'swapaxes', 'view', 'ravel', 'squeeze') and r.op not in ('k',):
                    return I.new_box(r, set(I.prov.get(o, ())) | {o})
                if name == 'sort' and not args and not kw:
                    I.mutate(o, I.content(self.x_np_sort([o], {})))
                    return NONE
                if name in ('sort', 'fill', 'resize', 'put', 'partition', 'itemset', 'byteswap') \
                        and not (name == 'byteswap' and not args):
                    I.mutate(o, raw('call', name, c, *[self.D(a) for a in args]))
                    return NONE
                return r
            return self.method(self.D(o), name, args, kw)
        if o.op == 'superobj':
            return NONE
        return self.method(o, name, args, kw)

    def instdict(self, o, name, args, kw):
        """methods of the dictionary of an object"""
        I, x = self.I, o.args[0]
        if x.op != 'ref' or x.args[1] != 'inst':
            return None
        if name == 'clear' and not args:
            I.forget(x)
            return NONE
        if name == 'update' and (len(args) == 1 or kw):
            items = []
            for a in args:
                f = self.dict_fixed(I.content(a)) if a.op == 'ref' and a.args[1] == 'dict' else None
                if f is None or not all(T.is_kstr(k) for k, _ in f):
                    return None
                items += [(kval(k), v) for k, v in f]
            for k, v in items + sorted(kw.items()):
                I.setattr(x, k, v, True)
            return NONE
        if name in ('pop', 'get', 'setdefault', '__contains__') and args and T.is_kstr(self.D(args[0])):
            n = kval(self.D(args[0]))
            v = I.st.get(('a', x, n))
            here = v is not None and v.op not in ('deleted', 'undef')
            if here and v.op == 'ite':
                return None
            if name == '__contains__':
                return TRUE if here else FALSE
            if name == 'pop' and here:
                I.st[('a', x, n)] = raw('deleted')
            if here:
                return v
            if name == 'pop' and len(args) == 1:
                I.do_raise(raw('exc', 'KeyError'))
            d = args[1] if len(args) > 1 else NONE
            if name == 'setdefault':
                I.setattr(x, n, d, True)
            return d
        if name in ('keys', 'values', 'items', 'copy') and not args:
            at = I.attributes(x)
            if any(v.op == 'ite' and any(y.op == 'deleted' for y in self.leaves_(v)) for n, v in at):
                return None
            if name == 'copy':
                r = I.new_ref('dict', seq('dict', []))
                for n, v in at:
                    I.setitem(r, K(n), v)
                return r
            return I.new_list([K(n) if name == 'keys' else v if name == 'values' else seq('tuple', [K(n), v]) for n, v in at])
        return None

    def method(self, o, name, args, kw):
        I = self.I
        if o.op == 'instdict':
            r = self.instdict(o, name, args, kw)
            if r is not None:
                return r
        f = getattr(self, 'm_' + name, None)
        if f is not None:
            r = f(o, args, kw)
            if r is not None:
                return r
        if is_k(o) and o.args[0] in ('str', 'bytes') and all(is_k(self.D(a)) for a in args) and not kw:
            try:
                r = getattr(kval(o), name)(*[kval(self.D(a)) for a in args])
                if isinstance(r, list):
                    return I.new_list([K(x) for x in r])
                return K(r)
            except Exception:
                pass
        if o.op == 'sym':
            args, kw = I.positional(name, args, kw)
        a = [self.D(x) for x in args] + [raw('kw', k, self.D(kw[k])) for k in sorted(kw)]
        r = raw('call', '.' + name, self.D(o), *a)
        if not (T.kind(o) in ('str', 'bytes', 'num', 'arr', 'seq') or name in PURE_METH):
            I.emit('call', r)
        return r

    # strings
    def m_format(self, o, args, kw):
        if not is_k(o) or o.args[0] != 'str':
            return None
        return self.do_format(kval(o), args, kw)

    def do_format(self, text, args, kw):
        parts = []
        auto = 0
        args = list(args)
        for lit, fld, spec, conv in string.Formatter().parse(text):
            if lit:
                parts.append(K(lit))
            if fld is None:
                continue
            import re
            m = re.match(r'(\w*)(.*)$', fld)
            nm, rest = m.group(1), m.group(2)
            if nm == '':
                nm = str(auto)
                auto += 1
            if nm.isdigit():
                if int(nm) >= len(args):
                    if args and args[-1].op == 'seg':
                        s = args[-1].args[0]
                        v = mk_sub(self.D(s), K(int(nm) - len(args) + 1))
                    else:
                        self.I.emit('badcall', K('format'))
                        self.I.do_raise(raw('exc', 'IndexError'))
                else:
                    v = args[int(nm)]
                    if v.op == 'seg':
                        v = mk_sub(self.D(v.args[0]), K(0))
            else:
                if nm not in kw:
                    self.I.do_raise(raw('exc', 'KeyError'))
                v = kw[nm]
            for a in re.findall(r'\.(\w+)|\[(\w+)\]', rest):
                if a[0]:
                    v = self.I.getattr(v, a[0])
                else:
                    v = self.I.getitem(v, K(int(a[1]) if a[1].isdigit() else a[1]))
            parts.append(self.to_str(v, spec or '', conv or ''))
        return self.cat(parts) if parts else K('')

    def to_str(self, v, spec='', conv=''):
        I = self.I
        if v.op == 'ite' and has_ref_(v):
            return I.lift_ref(v, lambda x: self.to_str(x, spec, conv))
        if v.op == 'ref' and v.args[1] == 'inst':
            c = I.inst_class(v)
            nm = '__repr__' if conv == 'r' or I.find_attr(c, '__str__') is None else '__str__'
            if I.find_attr(c, nm) is not None:
                return I.call(I.getattr(v, nm), [], {})
            return raw('fmt', raw('obj', c.name), '', conv)
        return self.fmt(self.D(v), spec, conv)

    def percent(self, a, b):
        if not is_k(a):
            return raw('call', 'percent', a, b)
        import re
        text = kval(a)
        vals = parts_fixed(b) if b.op == 'seq' and b.args[0] == 'tuple' else [b]
        if isinstance(text, bytes):
            bits = re.split(rb'%[sb]', text)
            if vals is None or b'%' in b''.join(bits) or any(T.kind(v) != 'bytes' for v in vals):
                return raw('call', 'percent', a, b)
            if len(bits) != len(vals) + 1:
                self.I.do_raise(raw('exc', 'TypeError'))
            parts = [K(bits[0])]
            for v, x in zip(vals, bits[1:]):
                parts += [v, K(x)]
            return self.cat(parts)
        if vals is None:
            return raw('call', 'percent', a, b)
        parts, pos, k = [], 0, 0
        for m in re.finditer(r'%([-0-9.]*)([sdrfgei%])', text):
            parts.append(K(text[pos:m.start()]))
            pos = m.end()
            if m.group(2) == '%':
                parts.append(K('%'))
                continue
            if k >= len(vals):
                self.I.do_raise(raw('exc', 'TypeError'))
            sp = m.group(1)
            ty = m.group(2)
            if ty == 'r':
                parts.append(self.fmt(vals[k], sp, 'r'))
            elif ty in 'sd':
                if sp and not sp.startswith('-') and ty == 's':
                    sp = '>' + sp
                elif sp.startswith('-'):
                    sp = '<' + sp[1:]
                parts.append(self.fmt(vals[k], sp, ''))
            else:
                parts.append(self.fmt(vals[k], ('>' if sp[:1].isdigit() and not sp.startswith('0') else '') + sp + ty, ''))
            k += 1
        parts.append(K(text[pos:]))
        return self.cat([p for p in parts if not (is_k(p) and kval(p) == '')] or [K('')])

    def m_join(self, o, args, kw):
        if T.kind(o) not in ('str', 'bytes'):
            return None
        s = self.D(self.I.as_seq(args[0]))
        f = parts_fixed(s)
        if f is not None:
            out = []
            for j, x in enumerate(f):
                if j:
                    out.append(o)
                out.append(x)
            return self.cat(out) if out else K('')
        if is_k(o) and kval(o) == '' and s.op == 'seq':
            # concatenation of the pieces
            out = []
            for p in s.args[1:]:
                if p.op == 'seg':
                    m = p.args[0]
                    if m.op == 'map' and m.args[2].op == 'seq' and len(m.args[2].args) == 2 \
                            and m.args[2].args[1].op != 'seg':
                        out.append(raw('catmap', m.args[0], m.args[1], m.args[2].args[1]))
                    else:
                        out.append(raw('call', '.join', o, m))
                else:
                    out.append(p)
            return self.cat(out)
        return raw('call', '.join', o, s)

    def m_encode(self, o, args, kw):
        if is_k(o) and o.args[0] == 'str':
            try:
                return K(kval(o).encode(*[kval(self.D(a)) for a in args]))
            except UnicodeError:
                self.I.do_raise(raw('exc', 'UnicodeEncodeError'))
        if o.op == 'cat':
            return self.cat([self.m_encode(p, args, kw) for p in o.args])
        if o.op == 'ite':
            return lift(lambda x: self.m_encode(x, args, kw), o)
        return raw('asbytes', o)

    def m_decode(self, o, args, kw):
        if is_k(o) and o.args[0] == 'bytes':
            return K(kval(o).decode())
        if o.op == 'txt' and not txt.numeric(o):
            return txt.mk('str', [K(kval(p).decode()) if is_k(p) else p for p in o.args[1:]])
        if o.op == 'stripped' and not txt.numeric(o.args[0]):
            return raw('stripped', self.m_decode(o.args[0], args, kw), *o.args[1:])
        if o.op == 'txt' and self.I.unroll:
            if not args and not kw or len(args) == 1 and is_k(self.D(args[0])) and \
                    str(kval(self.D(args[0]))).lower() in ('ascii', 'utf-8', 'utf8'):
                txt.desync('a text', o)
            return txt.mk('str', [K(kval(p).decode('latin-1')) if is_k(p) else p for p in o.args[1:]])
        return raw('call', '.decode', o)

    def strip_(self, o, args, left, right):
        if args and not is_k(args[0]):
            return None
        if T.kind(o) in ('str', 'bytes') and o.op == 'txt':
            return txt.strip(o, kval(args[0]) if args else None, left, right)
        return None

    def m_strip(self, o, args, kw):
        return self.strip_(o, args, True, True)

    def m_split(self, o, args, kw):
        if o.op == 'txt' and not args and not kw and self.I.unroll:
            r = txt.split(o)
            return self.I.new_list(T.seq_fixed(r)) if r is not None else None
        return None

    def m_lstrip(self, o, args, kw):
        return self.strip_(o, args, True, False)

    def m_rstrip(self, o, args, kw):
        return self.strip_(o, args, False, True)

    def m_index(self, o, args, kw):
        f = T.seq_fixed(o) if o.op == 'seq' and o.args[0] in ('list', 'tuple') else None
        x = self.D(args[0]) if len(args) == 1 else None
        if f is None or x is None:
            return None
        for k, v in enumerate(f):
            e = mk_eq(self.D(v), x)
            if e is TRUE:
                return K(k)
            if e is not FALSE:
                return None
        self.I.do_raise(raw('exc', 'ValueError'))

    def m_count(self, o, args, kw):
        f = T.seq_fixed(o) if o.op == 'seq' and o.args[0] in ('list', 'tuple') else None
        if f is None or len(args) != 1:
            return None
        es = [mk_eq(self.D(v), self.D(args[0])) for v in f]
        if all(e in (TRUE, FALSE) for e in es):
            return K(sum(e is TRUE for e in es))
        return None

    def m_isspace(self, o, args, kw):
        if o.op == 'txt':
            if txt.numeric(o) or any(is_k(p) and not kval(p).isspace() for p in o.args[1:]):
                return FALSE
        return None

    def m_startswith(self, o, args, kw):
        return self.edge(o, args, False)

    def m_endswith(self, o, args, kw):
        return self.edge(o, args, True)

    def edge(self, o, args, end):
        if o.op != 'txt' or len(args) != 1:
            return None
        a = self.D(args[0])
        if is_k(a) and a.args[0] in ('str', 'bytes'):
            n, k = txt.length(o), len(kval(a))
            if k > n:
                return FALSE
            return mk_eq(txt.sub(o, n - k, n) if end else txt.sub(o, 0, k), a)
        return None

    def x_struct_unpack(self, args, kw):
        return self.unpack_('struct.unpack', args, kw, True)

    def x_struct_unpack_from(self, args, kw):
        return self.unpack_('struct.unpack_from', args, kw, False)

    def x_struct_calcsize(self, args, kw):
        import struct
        if is_k(args[0]):
            return K(struct.calcsize(kval(args[0])))
        return self.call_pure('struct.calcsize', [self.D(a) for a in args])

    def unpack_(self, name, args, kw, exact):
        a = [self.D(x) for x in args]
        if not kw and len(a) in (2, 3) and is_k(a[0]) and all(T.is_kint(x) for x in a[2:]):
            form = kval(a[0])
            r = txt.unpack(form.decode() if isinstance(form, bytes) else form, a[1], exact,
                           int(kval(a[2])) if len(a) == 3 else 0)
            if isinstance(r, str):
                self.I.do_raise(raw('exc', r))
            if r is not None:
                return r
        return self.call_pure(name, a)

    def m_upper(self, o, args, kw):
        return self.strcase(o, 'upper')

    def m_lower(self, o, args, kw):
        return self.strcase(o, 'lower')

    def strcase(self, o, how):
        def f(x):
            if is_k(x) and x.args[0] in ('str', 'bytes'):
                return K(getattr(kval(x), how)())
            if x.op == 'call' and x.args[0] in ('.upper', '.lower'):
                return raw('call', '.' + how, x.args[1])
            if x.op == 'cat':
                return mk_cat([f(p) for p in x.args])
            if x.op == 'fmt' and x.args[0].op in ('poly', 'len', 'F', 'bv'):
                return x
            return raw('call', '.' + how, x)
        return lift(f, o)

    # tables
    def m__f_get_child(self, o, args, kw):
        nm = self.D(args[0])
        return self.node(o, nm)

    def node(self, o, nm):
        n = lift(lambda x: raw('node', o, x), nm)
        if is_k(nm) and '_' in kval(nm) or nm.op == 'cat' and any(is_k(p) and '_' in kval(p) for p in nm.args):
            return n
        self.I.maybe_raise('tables.NoSuchNodeError', T.atom('raises', n))
        return n

    def m_col(self, o, args, kw):
        if len(args) == 1:
            return self.I.new_box(mk_fld(o, self.D(args[0])))

    def m_read(self, o, args, kw):
        if not args and not kw and o.op == 'node':
            return self.I.new_box(o)
        if o.op == 'node' and 'field' in kw and not args and len(kw) == 1:
            return self.I.new_box(mk_fld(o, self.D(kw['field'])))

    def m_iterrows(self, o, args, kw):
        if not args and not kw:
            return o

    def m_where(self, o, args, kw):
        if len(args) == 1 and not kw:
            return mk_sub(o, raw('mask', parse_query(o, self.D(args[0]))))

    def m_read_where(self, o, args, kw):
        r = mk_sub(o, raw('mask', parse_query(o, self.D(args[0]))))
        f = kw.get('field', args[1] if len(args) > 1 else None)
        if f is not None and f is not NONE:
            r = mk_fld(r, self.D(f))
        return self.I.new_box(r)

    def m_get_where_list(self, o, args, kw):
        return raw('where_idx', raw('mask', parse_query(o, self.D(args[0]))))

    def m_fetch_all_fields(self, o, args, kw):
        return o

    # arrays
    def m_reshape(self, o, args, kw):
        d = [self.D(a) for a in args]
        return self.reshaped(o, d[0] if len(d) == 1 else seq('tuple', d), kw.get('order'))

    def reshaped(self, o, d, order):
        order = K('C') if order is None else self.D(order)
        if order is K('C'):
            return mk_reshape(o, d)
        if order is K('F'):
            f = parts_fixed(d) if d.op == 'seq' else [d]
            if f is None:
                raise Unsupported('reshape in order F')
            r = mk_reshape(self.arr_attr(o, 'T'), f[0] if len(f) == 1 else seq('tuple', f[::-1]))
            return r if len(f) == 1 else mk_transpose(r, range(len(f))[::-1])
        if order in (K('A'), K('K')):
            return mk_reshape(raw('memorder', o), d)
        raise Unsupported('order of reshape')

    def m_take(self, o, args, kw):
        return self.x_np_take([o] + list(args), kw)

    def m_copy(self, o, args, kw):
        return self.I.new_box(o) if o.op not in ('ref',) and T.kind(o) != 'str' else None

    def m_dot(self, o, args, kw):
        return mk_dot(o, self.D(args[0]))

    def m_astype(self, o, args, kw):
        t = self.D(args[0])
        return self.I.new_box(raw('astype', o, t))

    def m_box_astype(self, o, args, kw):
        r = self.method(self.I.content(o), 'astype', [a for a in args], {k: v for k, v in kw.items() if k != 'copy'})
        if kw.get('copy') is FALSE:
            return self.box(self.D(r), o)
        return r

    def m_view(self, o, args, kw):
        if len(args) == 1:
            return raw('viewas', o, self.D(args[0]))

    def m_transpose(self, o, args, kw):
        return self.x_np_transpose([o] + ([args[0]] if len(args) == 1 else [seq('tuple', list(args))] if args else []), kw)

    def m_swapaxes(self, o, args, kw):
        return self.x_np_swapaxes([o] + list(args), kw)

    def m_tolist(self, o, args, kw):
        return self.I.new_ref('list', seq('list', [seg(o)])) if T.kind(o) != 'str' else None

    def m_all(self, o, args, kw):
        return self.x_np_all([o] + list(args), kw)

    def m_any(self, o, args, kw):
        return self.x_np_any([o] + list(args), kw)

    def m_flatten(self, o, args, kw):
        return self.I.new_box(self.reshaped(o, K(-1), kw.get('order', args[0] if args else None)))

    def m_ravel(self, o, args, kw):
        return self.reshaped(o, K(-1), kw.get('order', args[0] if args else None))

    def m_squeeze(self, o, args, kw):
        return None

    def m_get(self, o, args, kw):
        if o.op in ('dictmap', 'dstore') or o.op == 'seq' and o.args[0] == 'dict':
            return self.dict_get(o, self.D(args[0]), args[1] if len(args) > 1 else NONE)

    # lists
    def m_list_append(self, o, args, kw):
        self.I.list_extend(o, seq('list', [args[0]]))
        return NONE

    def m_list_extend(self, o, args, kw):
        self.I.list_extend(o, self.I.as_seq(args[0]))
        return NONE

    def m_list_pop(self, o, args, kw):
        I = self.I
        c = I.content(o)
        i = self.D(args[0]) if args else K(-1)
        f = parts_fixed(c)
        if f is not None and T.is_kint(i):
            if not -len(f) <= kval(i) < len(f):
                I.do_raise(raw('exc', 'IndexError'))
            v = f.pop(kval(i))
            I.st[('c', o)] = seq('list', f)
            return v
        r = mk_sub(c, i)
        if i is K(-1) and c.op == 'seq' and c.args[-1].op != 'seg':
            I.st[('c', o)] = raw('seq', *c.args[:-1])
            return c.args[-1]
        I.st[('c', o)] = raw('lpop', c, i)
        return r

    def m_list_insert(self, o, args, kw):
        I = self.I
        c = I.content(o)
        f = parts_fixed(c)
        i = self.D(args[0])
        if f is not None and T.is_kint(i):
            f.insert(kval(i), args[1])
            I.st[('c', o)] = seq('list', f)
        elif i is K(0):
            I.st[('c', o)] = seq('list', [args[1]] + as_parts(c))
        else:
            I.st[('c', o)] = raw('linsert', c, i, args[1])
        return NONE

    def m_list_sort(self, o, args, kw):
        I = self.I
        I.st[('c', o)] = self.sorted_(I.content(o), kw)
        return NONE

    def m_list_copy(self, o, args, kw):
        return self.I.new_ref('list', self.I.content(o))

    def m_list_clear(self, o, args, kw):
        self.I.st[('c', o)] = seq('list', [])
        return NONE

    def m_list_reverse(self, o, args, kw):
        I = self.I
        f = parts_fixed(I.content(o))
        if f is None:
            I.st[('c', o)] = raw('call', 'reversed', I.content(o))
        else:
            I.st[('c', o)] = seq('list', f[::-1])
        return NONE

    def m_list_index(self, o, args, kw):
        r = self.m_index(self.I.content(o), args, kw)
        return r if r is not None else raw('call', '.index', self.D(o), self.D(args[0]))

    def m_list_count(self, o, args, kw):
        r = self.m_count(self.I.content(o), args, kw)
        return r if r is not None else raw('call', '.count', self.D(o), self.D(args[0]))

    def m_list_remove(self, o, args, kw):
        I = self.I
        I.st[('c', o)] = raw('lremove', I.content(o), self.D(args[0]))
        return NONE

    # dicts
    def m_dict_get(self, o, args, kw):
        return self.dict_get(self.I.content(o), self.D(args[0]), args[1] if len(args) > 1 else NONE)

    def m_dict_items(self, o, args, kw):
        f = self.dict_fixed(self.I.content(o))
        if f is not None:
            return seq('list', [seq('tuple', [k, v]) for k, v in f])
        return raw('items', self.D(o))

    def m_dict_keys(self, o, args, kw):
        f = self.dict_fixed(self.I.content(o))
        if f is not None:
            return seq('list', [k for k, v in f])
        return raw('keys', self.D(o))

    def m_dict_values(self, o, args, kw):
        f = self.dict_fixed(self.I.content(o))
        if f is not None:
            return seq('list', [v for k, v in f])
        return raw('values', self.D(o))

    dict_iteritems, dict_iterkeys, dict_itervalues = None, None, None

    def m_dict_setdefault(self, o, args, kw):
        I = self.I
        c = I.content(o)
        k = self.D(args[0])
        d = args[1] if len(args) > 1 else NONE
        hit, val = self.lookup(c, k)
        if hit is TRUE:
            return val
        new = self.dict_set(c, k, d)
        if hit is FALSE:
            I.st[('c', o)] = new
            return d
        I.st[('c', o)] = mk_ite(hit, c, new)
        return mk_ite(hit, val, d)

    def m_dict_pop(self, o, args, kw):
        I = self.I
        c = I.content(o)
        k = self.D(args[0])
        v = self.dict_get(c, k, args[1] if len(args) > 1 else None)
        self.delitem(o, k)
        return v

    def m_dict_update(self, o, args, kw):
        I = self.I
        c = I.content(o)
        if args:
            for k, v in self.dict_fixed_or_fail(self.D(args[0])):
                c = self.dict_set(c, k, v)
        for k, v in kw.items():
            c = self.dict_set(c, K(k), v)
        I.st[('c', o)] = c
        return NONE

    def m_dict_clear(self, o, args, kw):
        self.I.st[('c', o)] = seq('dict', [])
        return NONE

    def m_dict_copy(self, o, args, kw):
        return self.I.new_ref('dict', self.I.content(o))

    # sets
    def m_set_add(self, o, args, kw):
        I = self.I
        c = I.content(o)
        v = args[0] if args[0].op == 'ref' and args[0].args[1] == 'inst' else self.D(args[0])
        I.st[('c', o)] = lift(lambda x: self.set_union(x, raw('seq', 'set', v)), c)
        return NONE

    def m_set_update(self, o, args, kw):
        I = self.I
        for a in args:
            I.st[('c', o)] = self.set_union(I.content(o), self.to_set(a))
        return NONE

    def m_set_discard(self, o, args, kw):
        I = self.I
        c = I.content(o)
        v = self.D(args[0])
        if c.op == 'seq':
            items = list(c.args[1:])
            if v in items:
                items.remove(v)
                I.st[('c', o)] = raw('seq', 'set', *items)
                return NONE
        I.st[('c', o)] = raw('setdel', c, v)
        return NONE

    m_set_remove = m_set_discard

    def m_set_copy(self, o, args, kw):
        return self.I.new_ref('set', self.I.content(o))

    def m_set_clear(self, o, args, kw):
        self.I.st[('c', o)] = seq('set', [])
        return NONE

    # iterators
    def x_iter(self, args, kw):
        I = self.I
        a = args[0]
        if a.op == 'ref' and a.args[1] == 'inst':
            return I.call(I.getattr(a, '__iter__'), [], {})
        if a.op == 'ref' and a.args[1] == 'iter':
            return a
        r = I.new_ref('iter', K(0))
        I.itersrc[r] = a
        return r

    def x_next(self, args, kw):
        I = self.I
        a = args[0]
        if a.op != 'ref':
            return I.call(I.getattr(a, '__next__'), [], {})
        if a.args[1] == 'inst':
            return I.call(I.getattr(a, '__next__'), [], {})
        if a.args[1] == 'list':     # generator expression
            c = self.I.content(a)
            src, k = a, K(0)
            n = seq_len(self.D(c))
            v = mk_sub(self.D(c), K(0))
            if len(args) > 1:
                return mk_ite(eq_num(n, K(0)), self.D(args[1]), v)
            I.maybe_raise('StopIteration', eq_num(n, K(0)))
            return v
        src, k = I.itersrc[a], I.content(a)
        s = I.as_seq(src)
        if src.op == 'ref' and src.args[1] in ('set', 'dict') and T.is_kint(k):
            f = parts_fixed(s)
            if f is not None:
                I.st[('c', a)] = padd(k, K(1))
                if kval(k) < len(f):
                    return f[kval(k)]
                if len(args) > 1:
                    return args[1]
                I.do_raise(raw('exc', 'StopIteration'))
        n = seq_len(self.D(s))
        end = c_not(mk_neg(psub(k, n)))
        v = I.getitem(src, k) if src.op in ('ref', 'seq') else mk_sub(self.D(s), k)
        I.st[('c', a)] = padd(k, K(1))
        if len(args) > 1:
            return mk_ite(end, args[1], v)
        I.maybe_raise('StopIteration', end)
        return v

    # ---- builtins
    def x_len(self, args, kw):
        I = self.I
        a = args[0]
        if a.op == 'ref' and a.args[1] == 'inst':
            return I.call(I.getattr(a, '__len__'), [], {})
        t = self.D(a)
        return lift(self._len, t)

    def _len(self, t):
        if t.op == 'seq' and t.args[0] in ('dict', 'set'):
            if t.args[0] == 'dict' or len(t.args) <= 2:
                return K(len(t.args) - 1)
            return raw('len', t)
        if self.I.arrays:
            d = self.declared(t.args[0] if t.op == 'tobytes' else t)
            if d is not None and d[0]:
                if t.op == 'tobytes':
                    n = K(itemsize(d[1]))
                    for x in d[0]:
                        n = pmul(n, x)
                    return n
                return d[0][0]
        if t.op == 'shape':
            n = ndim(t.args[0])
            return K(n) if n is not None else raw('ndim', t.args[0])
        if t.op == 'reshape':
            f = parts_fixed(t.args[1])
            if f and f[0] is not K(-1):
                return f[0]
            return raw('len', t)
        if t.op == 'setof' and t.args[0].op in ('fld', 'sub'):
            return raw('len', raw('unique', t.args[0]))
        if t.op == 'fld':
            return self._len(t.args[0])
        if t.op == 'sub' and (is_array(t.args[1]) or t.args[1].op == 'poly'):
            return self._len(t.args[1])
        if t.op == 'poly':
            for m, c in t.args[0]:
                for b, e in m:
                    if is_array(b):
                        return self._len(b)
        return T._seq_len(t)

    def x_int(self, args, kw):
        if not args:
            return K(0)
        v = self.num(args[0])

        def f(x):
            if is_num(x):
                return K(int(kval(x)))
            if is_k(x) and x.args[0] == 'str' and len(args) == 1:
                try:
                    return K(int(kval(x)))
                except ValueError:
                    return raw('call', 'int', x)
            if x in (TRUE, FALSE):
                return K(1 if x is TRUE else 0)
            if T.kind(x) in ('str', 'bytes') or x.op == 'call':
                return raw('call', 'int', x)
            if x.op == 'poly' and not integral(x) and any(
                    c.denominator != 1 or any(e < 0 for b, e in m) for m, c in x.args[0]):
                # int(a / k)
                if len(x.args[0]) == 1 or True:
                    den = 1
                    for m, c in x.args[0]:
                        den = den * c.denominator
                    return raw('trunc', x)
            return x
        return lift(f, v)

    def x_float(self, args, kw):
        v = self.num(args[0])
        if v.op == 'txt' or is_k(v) and v.args[0] in ('str', 'bytes'):
            r = txt.number(v)
            if r.op == 'exc':
                self.I.do_raise(r)
            return r
        if T.kind(v) in ('str', 'bytes'):
            return raw('float', v)
        return v

    def x_bool(self, args, kw):
        return self.truth(args[0]) if args else FALSE

    def x_complex(self, args, kw):
        if len(args) == 2:
            return raw('complex', self.D(args[0]), self.D(args[1]))
        if len(args) == 1 and self.D(args[0]).op == 'F':
            return raw('complex', self.D(args[0]), K(0))
        return raw('call', 'complex', *[self.D(a) for a in args])

    def x_str(self, args, kw):
        if not args:
            return K('')
        if len(args) > 1:
            return raw('call', '.decode', self.D(args[0]))
        return self.to_str(args[0])

    def x_repr(self, args, kw):
        return self.to_str(args[0], '', 'r')

    def x_format(self, args, kw):
        sp = kval(args[1]) if len(args) > 1 and is_k(args[1]) else ''
        return self.to_str(args[0], sp)

    def x_ord(self, args, kw):
        v = self.D(args[0])
        if is_k(v) and v.args[0] in ('str', 'bytes') and len(kval(v)) == 1:
            return K(ord(kval(v)))
        if v.op == 'txt':
            txt.desync('a character code', v)
        return raw('call', 'ord', v)

    def x_chr(self, args, kw):
        v = self.D(args[0])
        if T.is_kint(v):
            return K(chr(int(kval(v))))
        return raw('call', 'chr', v)

    def x_bytearray(self, args, kw):
        v = self.D(args[0]) if len(args) == 1 and not kw else None
        if v is not None and T.kind(v) == 'bytes':
            return v
        return self.call_pure('bytearray', [self.D(a) for a in args])

    def x_list(self, args, kw):
        I = self.I
        if not args:
            return I.new_list()
        a = args[0]
        if a.op == 'ref' and a.args[1] == 'inst':
            a = I.call(I.getattr(a, '__iter__'), [], {})
        return I.new_ref('list', I.as_seq(a, 'list'))

    def x_tuple(self, args, kw):
        if not args:
            return seq('tuple', [])
        s = self.I.as_seq(args[0], 'tuple')
        if s.op == 'seq' and len(s.args) == 2 and s.args[1].op == 'seg' and s.args[1].args[0].op == 'ite':
            return s
        return s

    def to_set(self, a):
        I = self.I
        t = a
        if a.op == 'ref':
            if a.args[1] == 'set':
                return I.content(a)
            t = self.D(I.as_seq(a))
        elif a.op in ('zip', 'enum', 'range', 'rev', 'mapit'):
            t = self.D(I.as_seq(a))
        f = parts_fixed(t)
        if f is not None and all(x.op != 'seg' for x in f):
            r = seq('set', [])
            for x in f:
                r = self.set_union(r, raw('seq', 'set', x))
            return r
        if is_k(t) and t.args[0] == 'str':
            return raw('seq', 'set', *[K(c) for c in dict.fromkeys(kval(t))])
        if t.op == 'seq' and len(t.args) == 2 and t.args[1].op == 'seg':
            t = t.args[1].args[0]
        return lift(lambda x: x if x.op == 'setof' or x.op == 'seq' and x.args[0] == 'set' else (
            raw('seq', 'set', *x.args[1:]) if parts_fixed(x) is not None else raw('setof', x)), t)

    def x_set(self, args, kw):
        I = self.I
        if not args:
            return I.new_ref('set', seq('set', []))
        return I.new_ref('set', self.to_set(args[0]))

    x_frozenset = x_set

    def x_dict(self, args, kw):
        I = self.I
        d = seq('dict', [])
        if args:
            a = args[0]
            if a.op == 'ref' and a.args[1] == 'dict':
                d = I.content(a)
            elif a.op == 'zip' and I.iter_fixed(a) is None:
                ks, vs = self.D(a.args[0]), a.args[1]
                n, item = I.iter_index(a)
                b = raw('bv', 10 ** 7 + a.id)
                it = item(b)
                d = self.mk_dictmap(seq('dict', []), b, n, self.D(it.args[1]), self.D(it.args[2]), TRUE)
            else:
                s = self.D(I.as_seq(a)) if a.op != 'seq' else a
                f = parts_fixed(s)
                if f is None:
                    if s.op == 'seq' and len(s.args) == 2 and s.args[1].op == 'seg':
                        m = s.args[1].args[0]
                        if m.op == 'map' and m.args[2].op == 'seq' and len(m.args[2].args) == 2 and \
                                m.args[2].args[1].op == 'seq' and len(m.args[2].args[1].args) == 3:
                            kv = m.args[2].args[1]
                            b = raw('bv', 10 ** 7 + m.id)
                            d = self.mk_dictmap(seq('dict', []), b, m.args[1], subst(kv.args[1], {m.args[0]: b}),
                                                subst(kv.args[2], {m.args[0]: b}), TRUE)
                            f = []
                    if f is None:
                        d = raw('call', 'dict', s)
                        f = []
                for p in f:
                    kv = I.unpack(p, 2)
                    d = self.dict_set(d, self.D(kv[0]), kv[1])
        for k, v in kw.items():
            d = self.dict_set(d, K(k), v)
        return I.new_ref('dict', d)

    def x_dict_fromkeys(self, args, kw):
        I = self.I
        s = args[0]
        s = self.D(I.as_seq(s)) if s.op != 'seq' else s
        f = parts_fixed(s)
        if f is None:
            return raw('call', 'dict.fromkeys', *[self.D(a) for a in args])
        d = seq('dict', [])
        for k in f:
            d = self.dict_set(d, self.D(k), args[1] if len(args) > 1 else NONE)
        return I.new_ref('dict', d)

    x_collections_OrderedDict_fromkeys = x_dict_fromkeys

    def x_range(self, args, kw):
        a = [self.num(x) for x in args]
        if len(a) == 1:
            a = [K(0), a[0], K(1)]
        elif len(a) == 2:
            a = a + [K(1)]
        if any(x.op == 'ite' for x in a):
            return lift(lambda *xs: raw('range', *xs), *a)
        return raw('range', *a)

    x_xrange = x_range

    def keepseq(self, a):
        """iterable argument of zip / enumerate (references kept)"""
        if a.op == 'ref' and a.args[1] == 'inst':
            return self.I.call(self.I.getattr(a, '__iter__'), [], {})
        return a

    def x_zip(self, args, kw):
        if len(args) == 1 and args[0].op == 'seg':
            f = parts_fixed(self.D(args[0].args[0]))
            if f is None:
                return raw('call', 'zip', self.D(args[0]))
            args = f
        return raw('zip', *[self.keepseq(a) for a in args])

    x_itertools_izip = x_zip

    def x_enumerate(self, args, kw):
        st = kw.get('start', args[1] if len(args) > 1 else K(0))
        return raw('enum', self.keepseq(args[0]), self.D(st))

    def x_reversed(self, args, kw):
        return raw('rev', args[0])

    def sorted_(self, s, kw):
        f = parts_fixed(s)
        if f is not None and all(is_k(x) for x in f) and not kw:
            try:
                return seq('list', [K(v) for v in sorted(kval(x) for x in f)])
            except TypeError:
                pass
        if f is not None and len(f) < 2:
            return s
        r = self.sorted_fixed(f, kw) if f is not None else None
        if r is not None:
            return r
        if f is not None and any(x.op == 'ref' and x.args[1] == 'inst' for x in f):
            raise Unsupported('order of objects')
        if 'key' in kw or 'reverse' in kw:
            return raw('call', 'sorted', s, *[raw('kw', k, self.D(v) if v.op != 'py' else raw('obj', 'fn'))
                                              for k, v in sorted(kw.items())])
        return raw('sortd', s)

    def sorted_fixed(self, f, kw):
        """a known number of items in order of known keys"""
        rev = kw.get('reverse', FALSE)
        if set(kw) - {'key', 'reverse'} or rev not in (TRUE, FALSE):
            return None
        k = kw.get('key')

        def const(x, first):
            # tuples are told apart by their first items
            if first and x.op == 'seq' and x.args[0] == 'tuple' and len(x.args) > 1:
                return const(x.args[1], False)
            if x.op == 'seq' and x.args[0] == 'tuple':
                return tuple(const(y, False) for y in x.args[1:])
            if not is_k(x):
                raise KeyError
            return kval(x)
        try:
            ks = [self.I.D(x if k is None or k is NONE else self.I.call(k, [x], {})) for x in f]
            try:
                vs = [const(x, False) for x in ks]
            except KeyError:
                vs = [const(x, True) for x in ks]
                if len(set(vs)) != len(vs):
                    return None
            order = sorted(range(len(f)), key=lambda i: vs[i], reverse=rev is TRUE)
        except (KeyError, TypeError):
            return None
        return seq('list', [f[i] for i in order])

    def x_sorted(self, args, kw):
        s = self.D(self.I.as_seq(args[0]))
        return self.I.new_ref('list', seq('list', as_parts(self.sorted_(s, kw))))

    def x_isinstance(self, args, kw):
        v, c = args
        if c.op == 'seq':
            r = FALSE
            for x in parts_fixed(c):
                r = c_or(r, self.x_isinstance([v, x], kw))
            return r
        I = self.I
        if v.op == 'ite' and has_ref_(v):
            return I.lift_ref(v, lambda x: self.x_isinstance([x, c], kw))
        if c.op == 'py':
            cl = c.args[0]
            if v.op == 'ref' and v.args[1] == 'inst':
                return TRUE if cl in I.inst_class(v).mro() else FALSE
            if v.op in ('ref', 'k', 'seq', 'cat', 'fmt'):
                return FALSE
            return mk_isinst(v, cl.name)
        if c.op == 'ext':
            n = {'numpy.generic': 'numpy.generic'}.get(c.args[0], c.args[0])
            if v.op == 'ref':
                k = v.args[1]
                if k == 'inst':
                    return TRUE if n in I.inst_class(v).ext_bases() or n == 'object' else FALSE
                if k == 'box':
                    x = I.content(v)
                    if x.op in ('seq', 'k', 'ite', 'sym', 'Fs', 'cat'):
                        return mk_isinst(x, n)
                    return TRUE if n == 'numpy.ndarray' else FALSE
                return TRUE if n == k else FALSE
            return mk_isinst(v, n)
        return T.atom('isinst', v, self.D(c))

    def x_issubclass(self, args, kw):
        a, b = args
        if a.op == 'py' and b.op == 'py':
            return TRUE if b.args[0] in a.args[0].mro() else FALSE
        return T.atom('opq', raw('call', 'issubclass', self.D(a), self.D(b)))

    def x_hasattr(self, args, kw):
        I = self.I
        o, n = args
        if o.op == 'ref' and o.args[1] == 'inst' and is_k(n):
            if I.st.get(('a', o, kval(n))) is not None or I.find_attr(I.inst_class(o), kval(n)) is not None:
                return TRUE
            return FALSE
        return T.atom('hasattr', self.D(o), self.D(n))

    def x_getattr(self, args, kw):
        n = self.D(args[1])
        if not is_k(n):
            return lift(lambda x: raw('attr', self.D(args[0]), x), n) if n.op != 'ite' else \
                self.I.branch(cond_of(n), lambda: self.x_getattr([args[0], n.args[1]] + list(args[2:]), kw),
                              lambda: self.x_getattr([args[0], n.args[2]] + list(args[2:]), kw))
        if len(args) > 2:
            h = self.x_hasattr(args[:2], kw)
            if h is FALSE:
                return args[2]
            if h is not TRUE:
                return mk_ite(h, self.I.getattr(args[0], kval(n)), args[2])
        return self.I.getattr(args[0], kval(n))

    def x_setattr(self, args, kw):
        n = self.D(args[1])
        if not is_k(n):
            raise Unsupported('setattr with a computed name')
        self.I.setattr(args[0], kval(n), args[2])
        return NONE

    def x_vars(self, args, kw):
        return raw('instdict', args[0])

    def x_callable(self, args, kw):
        return TRUE if args[0].op in ('py',) else T.atom('opq', raw('call', 'callable', self.D(args[0])))

    def quant(self, args, kind):
        I = self.I
        s = I.as_seq(args[0])
        f = parts_fixed(s)
        if f is not None:
            r = FALSE if kind == 'any' else TRUE
            for x in f:
                c = self.truth(x)
                r = c_or(r, c) if kind == 'any' else c_and(r, c)
            return r
        s = self.D(s)
        if s.op == 'seq' and len(s.args) == 2 and s.args[1].op == 'seg':
            s = s.args[1].args[0]
        if s.op == 'map' and s.args[2].op == 'seq' and len(s.args[2].args) == 2 and s.args[2].args[1].op != 'seg':
            from .interp import mk_any
            c = mk_truth(s.args[2].args[1])
            return mk_any(s.args[0], s.args[1], c) if kind == 'any' else \
                c_not(mk_any(s.args[0], s.args[1], c_not(c)))
        return T.atom('opq', raw('call', kind, s))

    def x_any(self, args, kw):
        return self.quant(args, 'any')

    def x_all(self, args, kw):
        return self.quant(args, 'all')

    def x_sum(self, args, kw):
        s = self.D(self.I.as_seq(args[0]))
        st = args[1] if len(args) > 1 else kw.get('start', K(0))
        f = parts_fixed(s)
        if f is not None:
            r = st
            for x in f:
                r = self.binop('Add', r, x)
            return r
        if s.op == 'seq' and len(s.args) == 2 and s.args[1].op == 'seg':
            s = s.args[1].args[0]
        if s.op == 'map' and s.args[2].op == 'seq' and len(s.args[2].args) == 2 and s.args[2].args[1].op != 'seg':
            from .interp import mk_psum
            if st.op == 'seq':
                return seq('tuple', as_parts(st) + [seg(raw('map', s.args[0], s.args[1], seq(
                    'list', [seg(s.args[2].args[1])])))])
            return padd(self.D(st), mk_psum(s.args[0], s.args[1], s.args[2].args[1]))
        return raw('call', 'sum', s)

    def minmax(self, op, args, kw):
        if len(args) == 1:
            s = self.D(self.I.as_seq(args[0]))
            f = parts_fixed(s)
            if f is None:
                return raw('call', op, s)
            args = f
        args = [self.D(a) for a in args]
        if all(is_num(a) for a in args):
            return K((min if op == 'min' else max)(a.args[1] for a in args))
        r = args[0]
        for b in args[1:]:
            c = mk_neg(psub(b, r))          # b < r
            r = mk_ite(c, b, r) if op == 'min' else mk_ite(mk_neg(psub(r, b)), b, r)
        return r

    def x_min(self, args, kw):
        return self.minmax('min', args, kw)

    def x_max(self, args, kw):
        return self.minmax('max', args, kw)

    def x_abs(self, args, kw):
        v = self.num(args[0])
        if is_num(v):
            return K(abs(v.args[1]))
        if v.op == 'poly' and lead(v) < 0:
            v = psub(K(0), v)
        return raw('abs', v)

    x_np_abs = x_np_absolute = x_np_fabs = x_abs

    def x_round(self, args, kw):
        return raw('round', *[self.D(a) for a in args])

    def x_divmod(self, args, kw):
        a, b = self.num(args[0]), self.num(args[1])
        return seq('tuple', [mk_idiv(a, b), mk_mod(a, b)])

    def x_print(self, args, kw):
        return NONE

    def x_map(self, args, kw):
        I = self.I
        r = I.new_list()
        it = args[1] if len(args) == 2 else raw('zip', *args[1:])
        self.mapped(it, lambda v: I.list_extend(r, seq('list', [
            I.call(args[0], [v] if len(args) == 2 else as_parts(v), {})]), quiet=True))
        return r

    def x_filter(self, args, kw):
        I = self.I
        r = I.new_list()

        def one(v):
            c = I.truth(I.call(args[0], [v], {})) if args[0] is not NONE else I.truth(v)
            I.branch(c, lambda: I.list_extend(r, seq('list', [v]), quiet=True), lambda: None)
        self.mapped(args[1], one)
        return r

    def mapped(self, it, fn):
        I = self.I
        key = ('v', -1, '<map>%d' % it.id)

        def body(ex):
            from .interp import Dead
            I.raise_sink.append(ex)
            try:
                fn(I.st[key])
            except Dead:
                I.st = None
            finally:
                I.raise_sink.pop()
        ex = []
        I.for_each(it, lambda v: I.st.__setitem__(key, v), body, I.cur, ex)
        for e in ex:
            I.raise_sink[-1].append(e)
        if I.st is None:
            from .interp import Dead
            raise Dead()
        I.st.pop(key, None)

    def x_property(self, args, kw):
        return args[0]

    def x_functools_partial(self, args, kw):
        from .interp import Partial, py
        return py(Partial(args[0], args[1:], kw))

    def x_itertools_chain(self, args, kw):
        out = []
        for a in args:
            out += as_parts(self.I.as_seq(a))
        return seq('tuple', out)

    def x_itertools_count(self, args, kw):
        return raw('range', args[0] if args else K(0), raw('inf'), K(1))

    def x_math_ceil(self, args, kw):
        v = self.num(args[0])
        if is_num(v):
            import math
            return K(math.ceil(v.args[1]))
        # ceil(a / k)
        p = T.to_poly(v)
        den = 1
        for c in p.values():
            den = den * c.denominator // __import__('math').gcd(den, c.denominator)
        if den > 1:
            a = T.from_poly({m: c * den for m, c in p.items()})
            return self.ceildiv(a, K(den))
        return v if integral(v) else raw('ceil', v)

    def x_math_floor(self, args, kw):
        v = self.num(args[0])
        p = T.to_poly(v)
        den = 1
        for c in p.values():
            den = den * c.denominator // __import__('math').gcd(den, c.denominator)
        if den > 1:
            return mk_idiv(T.from_poly({m: c * den for m, c in p.items()}), K(den))
        return v if integral(v) else raw('floor', v)

    def x_math_sqrt(self, args, kw):
        return self.x_np_sqrt(args, kw)

    def x_math_degrees(self, args, kw):
        return self.x_np_rad2deg(args, kw)

    def x_math_radians(self, args, kw):
        return self.x_np_deg2rad(args, kw)

    # ---- numpy
    def arr(self, a):
        """term of an array-like argument"""
        if a.op == 'ref' and a.args[1] == 'box':
            return self.I.content(a)
        if a.op == 'ref' or a.op in ('zip', 'enum', 'range', 'rev', 'mapit'):
            if a.op == 'range' and a.args[0] is K(0) and a.args[2] is K(1):
                return raw('arange', a.args[1])
            t = self.D(self.I.as_seq(a))
            if t.op == 'seq' and len(t.args) == 2 and t.args[1].op == 'seg':
                t = t.args[1].args[0]
            return t
        t = self.D(a)
        if t.op == 'seq' and len(t.args) == 2 and t.args[1].op == 'seg':
            t = t.args[1].args[0]
        return t

    def box(self, t, *src):
        p = set()
        for s in src:
            if s.op == 'ref':
                p |= set(self.I.prov.get(s, ())) | {s}
        return self.I.new_box(t, p)

    def x_np_empty(self, args, kw):
        h = self.I.hooks.get('buffer')
        a = [self.D(x) for x in args] + [raw('kw', k, self.D(v)) for k, v in sorted(kw.items())]
        if h:
            return h(a)
        return self.I.new_box(raw('empty', *a))

    def x_np_array(self, args, kw):
        t = self.arr(args[0])
        dt = kw.get('dtype', args[1] if len(args) > 1 else None)
        r = mk_array(t)
        if dt is not None and dt is not NONE:
            r = raw('astype', r, self.D(dt))
        cp = kw.get('copy')
        if cp is FALSE:
            return self.box(r, args[0])
        return self.I.new_box(r)

    def x_np_asarray(self, args, kw, same=True):
        t = mk_array(self.arr(args[0]))
        dt = kw.get('dtype', args[1] if len(args) > 1 else None)
        box = args[0].op == 'ref' and args[0].args[1] == 'box'
        if box and same and not (set(kw) - {'dtype'}):            # the very array, if it is one of that dtype
            d = self.declared(t)
            if dt is None or dt is NONE:
                if d is not None or T.kind(t) == 'arr':
                    return args[0]
            elif d is not None and dtype_name(self.D(dt)) == d[1]:
                return args[0]
        if dt is not None and dt is not NONE:
            t = raw('astype', t, self.D(dt))
        if box:
            return self.box(t, args[0])
        return self.I.new_box(t)

    x_np_asanyarray = x_np_asarray

    def x_np_ascontiguousarray(self, args, kw):
        return self.x_np_asarray(args, kw, False)

    x_np_asfortranarray = x_np_ascontiguousarray

    def x_np_copy(self, args, kw):
        return self.I.new_box(self.arr(args[0]))

    def x_np_concatenate(self, args, kw):
        t = self.arr(args[0])
        ax = kw.get('axis', args[1] if len(args) > 1 else K(0))
        r = lift(lambda x: self.mk_concat(x, ax), t)
        return self.I.new_box(r)

    def mk_concat(self, x, ax):
        if x.op == 'seq' and x.args[0] in ('tuple', 'list'):
            x = raw('seq', 'list', *x.args[1:])
        f = T.seq_fixed(x) if x.op == 'seq' and ax is K(0) else None
        if f:
            rows = [T.seq_fixed(p.args[0] if p.op == 'array' else p) if (p.args[0] if p.op == 'array' else p).op == 'seq' else None
                    for p in (self.D(p) for p in f)]
            if all(r is not None and all(T.is_kint(v) for v in r) for r in rows):
                return raw('array', seq('list', [v for r in rows for v in r]))
        return raw('concatenate', x, ax)

    def x_np_hstack(self, args, kw):
        t = self.arr(args[0])
        return self.I.new_box(raw('call', 'numpy.hstack', t))

    def x_np_stack(self, args, kw):
        t = self.arr(args[0])
        ax = kw.get('axis', args[1] if len(args) > 1 else K(0))
        t = raw('seq', 'list', *t.args[1:]) if t.op == 'seq' else t
        if ax is K(0):
            return self.I.new_box(mk_array(t))
        if t.op != 'seq' and ndim(t) and T.is_kint(self.D(ax)):     # the items along the first axis
            return self.I.new_box(mk_moveaxis(t, (0,), (kval(self.D(ax)),)))
        return self.I.new_box(raw('stack', t, self.D(ax)))

    def x_np_vstack(self, args, kw):
        return self.I.new_box(raw('call', 'numpy.vstack', self.arr(args[0])))

    def x_np_column_stack(self, args, kw):
        t = self.arr(args[0])
        if t.op == 'seq':
            t = raw('seq', 'list', *t.args[1:])
            f = parts_fixed(t)
            if f is not None:
                return self.I.new_box(raw('stack', t, K(1)))
        return self.I.new_box(raw('call', 'numpy.column_stack', t))

    def x_np_unique(self, args, kw):
        t = self.arr(args[0])
        if t.op == 'seq' and t.args[0] == 'list' and len(t.args) == 2 and t.args[1].op == 'seg':
            t = t.args[1].args[0]
        kw = {k: v for k, v in kw.items() if v is not FALSE}
        if len(args) > 1:
            kw['return_index'] = args[1]
        u = self.I.new_box(mk_unique(t))
        if not kw:
            return u
        out = [u]
        for k in ('return_index', 'return_inverse', 'return_counts'):
            if kw.pop(k, None) is TRUE:
                if k == 'return_inverse':
                    out.append(self.I.new_box(self.index_in(mk_unique(t), t)))
                else:
                    out.append(self.I.new_box(raw('call', 'unique_' + k, t)))
        if kw:
            return raw('call', 'numpy.unique', t, *[raw('kw', k, self.D(v)) for k, v in sorted(kw.items())])
        return seq('tuple', out)

    def index_in(self, u, x):
        """for every entry of x its position in the sorted distinct values u"""
        return mk_indexin(u, x)

    def x_np_searchsorted(self, args, kw):
        a, v = self.arr(args[0]), self.arr(args[1])
        kws = [raw('kw', k, self.D(x)) for k, x in sorted(kw.items())]

        def f(a, v):
            if a.op == 'unique' and a.args[0] is v and not kw and len(args) == 2:
                return self.index_in(a, v)
            if a.op == 'sub' and a.args[1].op == 'call' and a.args[1].args[:2] == ('numpy.argsort', a.args[0]) and not kw and \
                    len(args) == 2:
                return raw('sortpos', a.args[0], v)     # a position in the sorted order, not in the array
            return raw('call', 'numpy.searchsorted', a, v, *kws)
        return self.I.new_box(lift(f, a, v))

    def x_np_sort(self, args, kw):
        t = self.arr(args[0])
        if kw or len(args) > 1:
            return raw('call', 'numpy.sort', t, *[raw('kw', k, self.D(v)) for k, v in sorted(kw.items())])
        if t.op == 'unique':
            return self.I.new_box(t)
        return self.I.new_box(raw('sortd', t))

    def x_np_cumsum(self, args, kw):
        from .interp import mk_psum, mk_map, fresh_bv
        v = self.arr(args[0])
        kws = [raw('kw', k, self.D(x)) for k, x in sorted(kw.items())]

        def f(v):
            if kw or len(args) > 1 or ndim(v) != 1:
                return raw('call', 'numpy.cumsum', v, *(kws + [self.D(x) for x in args[1:]]))
            b, i = fresh_bv(), fresh_bv()
            return mk_array(mk_map(i, seq_len(v), seq('list', [mk_psum(b, padd(i, K(1)), self.getitem(v, b))])))
        return self.I.new_box(lift(f, v))

    def x_np_arange(self, args, kw):
        a = [self.num(x) for x in args]
        kw = {k: v for k, v in kw.items() if k != 'dtype'}
        if len(a) == 1 and not kw:
            return self.I.new_box(lift(lambda n: raw('arange', n), a[0]))
        if len(a) == 2 and a[0] is K(0):
            return self.I.new_box(raw('arange', a[1]))
        if len(a) >= 2:
            st = a[2] if len(a) > 2 else K(1)
            n = self.ceildiv(psub(a[1], a[0]), st)
            return self.I.new_box(padd(a[0], pmul(st, raw('arange', n))))
        return raw('call', 'numpy.arange', *a)

    def fill(self, op, args, kw):
        return self.I.new_box(raw(op, seq('tuple', as_parts(self.num(args[0])) if self.num(args[0]).op == 'seq'
                                          else [self.num(args[0])])))

    def x_np_ones(self, args, kw):
        return self.fill('ones', args, kw)

    def x_np_zeros(self, args, kw):
        return self.fill('zeros', args, kw)

    def x_np_eye(self, args, kw):
        return self.I.new_box(raw('eye', *[self.num(a) for a in args]))

    x_np_identity = x_np_eye

    def x_np_diag(self, args, kw):
        t = self.arr(args[0])
        if t.op == 'ones' and len(args) == 1:
            return self.I.new_box(raw('eye', t.args[0].args[1]))
        if t.op == 'array' and parts_fixed(t.args[0]) and all(x is K(1) or x is K(1.0) for x in parts_fixed(t.args[0])):
            return self.I.new_box(raw('eye', K(len(parts_fixed(t.args[0])))))
        return raw('call', 'numpy.diag', t)

    def x_np_dot(self, args, kw):
        return self.I.new_box(mk_dot(self.arr(args[0]), self.arr(args[1])))

    def x_np_matmul(self, args, kw):
        return self.I.new_box(self._binop('MatMult', self.arr(args[0]), self.arr(args[1])))

    def x_np_rollaxis(self, args, kw):
        t = self.arr(args[0])
        ax = kw.get('axis', args[1] if len(args) > 1 else None)
        st = kw.get('start', args[2] if len(args) > 2 else K(0))
        r = mk_rollaxis(t, kval(self.D(ax)), kval(self.D(st)))
        return self.box(r, args[0])

    def x_np_moveaxis(self, args, kw):
        t = self.arr(args[0])
        s = int_tuple(self.D(kw.get('source', args[1] if len(args) > 1 else None)))
        d = int_tuple(self.D(kw.get('destination', args[2] if len(args) > 2 else None)))
        if s is None or d is None:
            return raw('call', 'numpy.moveaxis', t)
        return self.box(mk_moveaxis(t, s, d), args[0])

    def x_np_transpose(self, args, kw):
        t = self.arr(args[0])
        p = kw.get('axes', args[1] if len(args) > 1 else None)
        if p is None or p is NONE:
            return self.box(self.arr_attr(t, 'T'), args[0])
        p = int_tuple(self.D(p))
        if p is None:
            return raw('call', 'numpy.transpose', t)
        n = len(p)
        p = tuple(x % n for x in p)
        if ndim(t) is None:
            # single move?
            for s in range(n):
                for d in range(n):
                    o = [k for k in range(n) if k != s]
                    o.insert(d, s)
                    if tuple(o) == p:
                        return self.box(mk_moveaxis(t, (s,), (d,)), args[0])
        return self.box(mk_transpose(t, p), args[0])

    def x_np_swapaxes(self, args, kw):
        t = self.arr(args[0])
        a, b = kval(self.D(args[1])), kval(self.D(args[2]))
        n = ndim(t)
        if n is None:
            if a >= 0 and b >= 0 and abs(a - b) == 1:
                return self.box(mk_moveaxis(t, (max(a, b),), (min(a, b),)), args[0])
            return self.box(raw('call', 'swapaxes', t, K(min(a, b)), K(max(a, b))), args[0])
        p = list(range(n))
        p[a], p[b] = p[b], p[a]
        return self.box(mk_transpose(t, p), args[0])

    def x_np_reshape(self, args, kw):
        o = kw.get('order', args[2] if len(args) > 2 else None)
        return self.box(self.reshaped(self.arr(args[0]), self.D(args[1]), o), args[0])

    def x_np_ravel(self, args, kw):
        o = kw.get('order', args[1] if len(args) > 1 else None)
        return self.box(self.reshaped(self.arr(args[0]), K(-1), o), args[0])

    def x_np_take(self, args, kw):
        t, i = self.arr(args[0]), self.arr(args[1])
        ax = self.D(kw.get('axis', args[2] if len(args) > 2 else NONE))
        if set(kw) - {'axis'}:
            return raw('call', 'numpy.take', t, i, *[raw('kw', k, self.D(v)) for k, v in sorted(kw.items())])
        return self.I.new_box(lift(lambda x, y, z: self.mk_take(x, y, z), t, i, ax))

    def mk_take(self, t, i, ax):
        if ax is K(0) or ax is NONE and (ndim(t) == 1 or is_array(t)):
            return mk_sub(t, i)
        if T.is_kint(ax) and kval(ax) < 0 and ndim(t):
            ax = K(kval(ax) + ndim(t))
            if ax is K(0):
                return mk_sub(t, i)
        return raw('take', t, i, ax)

    def x_np_mod(self, args, kw):
        return mk_mod(self.num(args[0]), self.num(args[1]))

    x_np_remainder = x_np_mod

    def x_np_floor_divide(self, args, kw):
        return mk_idiv(self.num(args[0]), self.num(args[1]))

    def x_np_sqrt(self, args, kw):
        return lift(lambda v: ppow_half(v, Fraction(1, 2)), self.arr(args[0]))

    def x_np_square(self, args, kw):
        v = self.num(args[0])
        return pmul(v, v)

    def bin2(self, op, args):
        return self.binop(op, args[0], args[1])

    def x_np_add(self, args, kw):
        return self.bin2('Add', args)

    def x_np_subtract(self, args, kw):
        return self.bin2('Sub', args)

    def x_np_multiply(self, args, kw):
        return self.bin2('Mult', args)

    def x_np_divide(self, args, kw):
        return self.bin2('Div', args)

    x_np_true_divide = x_np_divide

    def x_np_power(self, args, kw):
        return self.bin2('Pow', args)

    def x_np_negative(self, args, kw):
        return self.neg(self.D(args[0]))

    def x_np_rad2deg(self, args, kw):
        return pmul(self.num(args[0]), pdiv(K(180), raw('sym', 'pi', 'num')))

    x_np_degrees = x_np_rad2deg

    def x_np_deg2rad(self, args, kw):
        return pmul(self.num(args[0]), pdiv(raw('sym', 'pi', 'num'), K(180)))

    x_np_radians = x_np_deg2rad

    def x_np_all(self, args, kw):
        t = self.arr(args[0])
        if t.op == 'mask':
            return T.atom('opq', raw('all', t.args[0]))
        return T.atom('opq', raw('call', 'all', t))

    def x_np_any(self, args, kw):
        t = self.arr(args[0])
        if t.op == 'mask':
            return c_not(T.atom('opq', raw('all', c_not(t.args[0]))))
        return T.atom('opq', raw('call', 'any', t))

    def x_np_isin(self, args, kw):
        x, s = self.arr(args[0]), self.arr(args[1])
        c = mk_in(x, s)
        if kw.get('invert') is TRUE:
            c = c_not(c)
        return raw('mask', c)

    x_np_in1d = x_np_isin

    def x_np_logical_and(self, args, kw):
        return self.bin2('BitAnd', args)

    def x_np_logical_or(self, args, kw):
        return self.bin2('BitOr', args)

    def x_np_logical_not(self, args, kw):
        return self.invert(self.D(args[0]))

    def x_np_where(self, args, kw):
        c = self.arr(args[0])
        if len(args) == 1:
            return seq('tuple', [raw('where_idx', c)])
        cc = c.args[0] if c.op == 'mask' else None
        a, b = self.arr(args[1]), self.arr(args[2])
        if cc is not None:
            return self.I.new_box(raw('vif', cc, a, b) if cc.op == 'ite' and False else self.vif(cc, a, b))
        return self.I.new_box(raw('call', 'numpy.where', c, a, b))

    def vif(self, c, a, b):
        """elementwise selection; canonical polarity"""
        if c.op == 'ite' and c.args[1] is FALSE and c.args[2] is TRUE:
            return raw('vif', c_not(c), b, a)
        return raw('vif', c, a, b)

    def x_np_nonzero(self, args, kw):
        return seq('tuple', [raw('where_idx', self.arr(args[0]))])

    def x_np_flatnonzero(self, args, kw):
        return raw('where_idx', self.arr(args[0]))

    def x_np_vectorize(self, args, kw):
        f = args[0]
        o = self.D(kw.get('otypes', args[1] if len(args) > 1 else NONE))
        return raw('vectorized', f) if o is NONE else raw('vectorized', f, o)

    def apply_vec(self, f, args):
        I, f0 = self.I, f
        t = self.arr(args[0])
        f = parts_fixed(t.args[0]) if t.op == 'array' and I.arrays else None
        if f is not None:
            if not f and len(f0.args) == 1:
                I.do_raise(raw('exc', 'ValueError'))      # no output types given
            r = raw('array', seq('list', [self.D(I.call(f0.args[0], [x], {})) for x in f]))
            o = parts_fixed(f0.args[1]) if len(f0.args) > 1 and f0.args[1].op == 'seq' else None
            if o is not None and len(o) == 1 and dtype_name(o[0]) != 'int64' or o is None and len(f0.args) > 1:
                r = raw('astype', r, o[0] if o else f0.args[1])
            return I.new_box(r)
        b = raw('bv', 10 ** 7 + t.id)
        e = self.D(I.call(f0.args[0], [mk_sub(t, b)], {}))
        return I.new_box(self.vecmap(e, b, t))

    def vecmap(self, e, b, t):
        n = self._len(t)
        m = {}
        if e.op == 'dget' and b not in fv(e.args[0]):
            d, k = e.args
            if d.op == 'dictmap' and d.args[0] is NONE and d.args[5] is TRUE:
                kk, vv, bb = d.args[3], d.args[4], d.args[1]
                if kk.op == 'sub' and kk.args[1] is bb and vv is bb and k is mk_sub(t, b):
                    u = kk.args[0]
                    if u.op == 'unique' and u.args[0] is t:
                        return self.index_in(u, t)
        if e is mk_sub(t, b):
            return t
        from .interp import mk_map
        x = elementwise(e, b, n)
        if x is not None:
            return x
        r = mk_map(b, n, seq('list', [e]))
        return raw('array', r)

    def x_np_frombuffer(self, args, kw):
        return raw('call', 'numpy.frombuffer', *[self.D(a) for a in args])

    # ---- path / re
    def x_re_compile(self, args, kw):
        a = [self.D(x) for x in args] + [self.D(v) for k, v in kw.items() if k == 'flags']
        return raw('regex', a[0], a[1] if len(a) > 1 else K(0))

    def regex_(self, how, args, kw):
        a = [self.D(x) for x in args]
        if 'flags' in kw:
            a.append(self.D(kw['flags']))
        if 'string' in kw:
            a.insert(1, self.D(kw['string']))
        pat, text, flags = a[0], a[1], a[2] if len(a) > 2 else K(0)
        if pat.op == 'regex':
            pat, flags = pat.args
        if is_k(pat) and is_k(flags) and is_k(text):
            r = rematch(how, pat, flags, text)
            return NONE if r is None else raw('rematch', how, pat, flags, text)
        if 'rematch' in self.I.hooks and is_k(pat) and is_k(flags):
            return self.I.hooks['rematch'](how, pat, flags, text)
        return raw('call', 're.' + how, pat, text, *([flags] if flags is not K(0) else []))

    def x_re_match(self, args, kw):
        return self.regex_('match', args, kw)

    def x_re_search(self, args, kw):
        return self.regex_('search', args, kw)

    def x_re_fullmatch(self, args, kw):
        return self.regex_('fullmatch', args, kw)

    def m_match(self, o, args, kw):
        if o.op == 'regex' and len(args) == 1:
            return self.regex_('match', [o] + args, kw)

    def m_search(self, o, args, kw):
        if o.op == 'regex' and len(args) == 1:
            return self.regex_('search', [o] + args, kw)

    def m_fullmatch(self, o, args, kw):
        if o.op == 'regex' and len(args) == 1:
            return self.regex_('fullmatch', [o] + args, kw)

    def m_groupdict(self, o, args, kw):
        if o.op == 'rematch':
            d = self.I.new_ref('dict', seq('dict', []))
            for k, v in rematch(*o.args).groupdict().items():
                self.I.setitem(d, K(k), K(v))
            return d
        if o.op == 'symmatch':
            d = self.I.new_ref('dict', seq('dict', []))
            for k, v in o.args[1]:
                self.I.setitem(d, K(k), o.args[0].args[1 + v])
            return d

    def m_groups(self, o, args, kw):
        if o.op == 'rematch':
            return seq('tuple', [K(x) for x in rematch(*o.args).groups()])
        if o.op == 'symmatch':
            return seq('tuple', o.args[0].args[2:])

    def m_group(self, o, args, kw):
        if o.op == 'rematch' and all(is_k(self.D(a)) for a in args):
            r = rematch(*o.args).group(*[kval(self.D(a)) for a in args])
            return seq('tuple', [K(x) for x in r]) if isinstance(r, tuple) else K(r)
        if o.op == 'symmatch' and all(is_k(self.D(a)) for a in args):
            ks = [kval(self.D(a)) for a in args] or [0]
            r = [o.args[0].args[1 + (k if isinstance(k, int) else dict(o.args[1])[k])] for k in ks]
            return r[0] if len(r) == 1 else seq('tuple', r)

    def m_end(self, o, args, kw):
        if o.op == 'rematch' and all(is_k(self.D(a)) for a in args):
            return K(rematch(*o.args).end(*[kval(self.D(a)) for a in args]))

    def m_start(self, o, args, kw):
        if o.op == 'rematch' and all(is_k(self.D(a)) for a in args):
            return K(rematch(*o.args).start(*[kval(self.D(a)) for a in args]))

    def path_fn(self, name, args):
        a = [self.D(x) for x in args]
        if all(is_k(x) for x in a):
            import os.path
            r = getattr(os.path, name)(*[kval(x) for x in a])
            if isinstance(r, tuple):
                return seq('tuple', [K(x) for x in r])
            return K(r)
        return None

    def x_path_split(self, args, kw):
        a = self.D(args[0])
        if is_k(a):
            return self.path_fn('split', args)
        return seq('tuple', [raw('call', 'path.dirname', a), raw('call', 'path.basename', a)])

    def x_path_basename(self, args, kw):
        return self.path_fn('basename', args) or raw('call', 'path.basename', self.D(args[0]))

    def x_path_dirname(self, args, kw):
        return self.path_fn('dirname', args) or raw('call', 'path.dirname', self.D(args[0]))

    def x_path_splitext(self, args, kw):
        a = self.D(args[0])
        if is_k(a):
            return self.path_fn('splitext', args)
        return seq('tuple', [raw('call', 'path.root', a), raw('call', 'path.ext', a)])


T_EXC = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'NameError', 'AttributeError',
         'NotImplementedError', 'RuntimeError', 'IOError', 'OSError', 'StopIteration', 'ImportError', 'EOFError',
         'LookupError', 'AssertionError', 'BaseException', 'FileNotFoundError', 'Warning', 'ArithmeticError',
         'ZeroDivisionError'}
PURE_METH = {'strip', 'lstrip', 'rstrip', 'split', 'startswith', 'endswith', 'replace', 'decode', 'encode', 'upper',
             'lower', 'isdigit', 'group', 'groups', 'groupdict', 'copy', 'index', 'count', 'find', 'ljust', 'rjust',
             'tobytes', 'tostring', 'astype', 'items', 'keys', 'values', 'title', 'splitlines', 'is_integer',
             'item', 'max', 'min', 'sum', 'mean', 'get_node', '_f_getattr', '_f_iter_nodes', 'tell',
             'isalnum', 'isalpha', 'zfill', 'center', 'partition', 'rpartition', 'match', 'search', 'fullmatch',
             'compress', 'nonzero', 'argsort', 'conj', 'conjugate', 'repeat', 'newbyteorder', 'byteswap', 'rsplit'}
Model.dict_get_ = Model.dict_get


def has_ref_(t):
    from .interp import has_ref
    return has_ref(t)


def is_diag_(t):
    from .interp import is_diag
    return is_diag(t)


def ext(n):
    return raw('ext', n)


def cond_of(t):
    return raw('ite', t.args[0], TRUE, FALSE)


def leaves(t):
    if t.op == 'ite':
        return leaves(t.args[1]) | leaves(t.args[2])
    return {t}


def strings(a, b):
    return T.kind(a) in ('str', 'bytes', 'seq') or T.kind(b) in ('str', 'bytes', 'seq') or a is NONE or b is NONE


def is_arr_poly(t):
    return t.op == 'poly' and any(is_array(b) or b.op in ('array', 'sub') for m, c in t.args[0] for b, e in m)


def ppow_half(a, e):
    def f(x):
        if e == Fraction(1, 2) and is_num(x):
            v = x.args[1]
            import math
            if v >= 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return K(Fraction(n, d))
                return raw('sqrt', x)
        if is_num(x) and e.denominator != 1:
            return raw('call', 'pow', x, K(e))
        return T._ppow(x, e)
    return lift(f, a)


# ---------------------------------------------------------------- positions in a sequential file
def coeffs4(p):
    """is the stream position p a multiple of 4 for all values of its (integer) variables?"""
    if p.op == 'ite':
        return coeffs4(p.args[1]) and coeffs4(p.args[2])
    if p.op == 'align':
        return True
    d = T.to_poly(p)
    for m, c in d.items():
        if c == int(c) and int(c) % 4 == 0:
            continue
        if len(m) == 1 and getattr(m[0][0] if isinstance(m[0], tuple) else m[0], 'op', '') == 'align' and c == int(c):
            continue
        return False
    return True


@T.register('align')
def mk_align(p):
    """start of the line after position p"""
    if T.is_k(p):
        return K(-(-int(T.kval(p)) // 4) * 4)
    if p.op == 'ite':
        return T.mk_ite(raw('ite', p.args[0], T.TRUE, T.FALSE), mk_align(p.args[1]), mk_align(p.args[2]))
    if coeffs4(p):
        return p
    return raw('align', p)
