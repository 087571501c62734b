"""Hash-consed terms of the value-flow graph, and their normal forms.

A term is a node of the value dependence graph: an operator applied to other
terms.  Equal terms are the same object.  `ite` nodes are gates (the joins of
the analysed program); they are kept as ordered decision diagrams over atomic
conditions, so that the nesting, order and polarity of the tests in the source
does not matter.
"""
from fractions import Fraction
import itertools


class Unsupported(Exception):
    """The analysis does not model a construct it needs: no verdict."""


class Overwritten(Unsupported):
    """What an array holds after its memory was changed through another is not known."""


class Term(object):
    __slots__ = ('op', 'args', 'id', '_fv', '_key')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_table = {}
_count = itertools.count()


def raw(op, *args):
    key = (op, tuple((type(a), a) if isinstance(a, (bool, int, float)) else a
                     for a in args))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, next(_count)
        t._fv = None
        _table[key] = t
    return t


def K(v):
    """A constant."""
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
        # 2.0 and 2 are told apart only by their type tag
        return raw('k', 'float', Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return raw('k', 'floatx', repr(v))
        return raw('k', 'float', Fraction(v))
    if isinstance(v, bool) or v is None or v is Ellipsis:
        return raw('k', 'lit', repr(v))
    if isinstance(v, int):
        return raw('k', 'int', Fraction(v))
    if isinstance(v, Fraction):
        return raw('k', 'int' if v.denominator == 1 else 'float', v)
    return raw('k', type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def is_k(t):
    return isinstance(t, Term) and t.op == 'k'


def kval(t):
    ty, v = t.args
    if ty == 'lit':
        return {'None': None, 'True': True, 'False': False,
                'Ellipsis': Ellipsis}[v]
    if ty == 'int':
        return int(v)
    if ty == 'float':
        return float(v)
    if ty == 'floatx':
        return float(v)
    return v


def is_kstr(t):
    return is_k(t) and t.args[0] == 'str'


def is_kint(t):
    return is_k(t) and t.args[0] == 'int'


def is_num(t):
    return is_k(t) and t.args[0] in ('int', 'float')


# ---------------------------------------------------------------- free symbols
def fv(t):
    """ids of the bound variables and loop symbols occurring in t"""
    if not isinstance(t, Term):
        return frozenset()
    if t._fv is None:
        if t.op in ('bv', 'mu'):
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for a in t.args:
                if isinstance(a, Term):
                    s |= fv(a)
            t._fv = s
    return t._fv


_occ_cache = {}


def occurs(x, t):
    """does term x occur in t?"""
    if x is t:
        return True
    if not isinstance(t, Term):
        return False
    if x.op in ('bv', 'mu'):
        return x in fv(t)
    key = (x.id, t.id)
    r = _occ_cache.get(key)
    if r is None:
        r = any(occurs(x, a) for a in t.args)
        _occ_cache[key] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, Term) or t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        for s in subterms(a, seen):
            yield s


# ------------------------------------------------------------------- printing
def show(t, depth=9):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return '..'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'k':
        return repr(kval(t))
    if op == 'sym':
        return '.'.join(str(x) for x in a)
    if op == 'bv':
        return 'i%d' % a[0]
    if op == 'mu':
        return 'mu<%s>' % (a[1],)
    if op == 'F':
        return 'F%s[%s]' % ('' if a[1] == 'cur' else "'", show(a[0], d))
    if op == 'Fs':
        return 'F%s[%s:+%s]' % ('' if a[2] == 'cur' else "'", show(a[0], d), show(a[1], d))
    if op == 'ite':
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op == 'seq':
        return '%s[%s]' % (a[0][0], ', '.join(
            show(x, d) for x in a[1:]))
    if op == 'seg':
        return '*' + show(a[0], d)
    if op == 'poly':
        out = []
        for mono, c in a[0]:
            m = '*'.join(show(b, d) + ('' if e == 1 else '**%s' % e) for b, e in mono)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(m)
            else:
                out.append('%s*%s' % (c, m))
        return '(' + ' + '.join(out) + ')'
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'sub':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if op == 'map':
        return 'map(%s: i%d<%s)' % (show(a[2], d), a[0].args[0], show(a[1], d))
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))


# ---------------------------------------------------------------------- kinds
NUMOPS = {'poly', 'len', 'int', 'float', 'F', 'sqrt', 'fdiv', 'mod', 'abs', 'max',
          'min', 'psum', 'dot', 'div', 'round', 'ceil', 'floor', 'sum', 'complex', 'neg'}
ARROPS = {'reshape', 'transpose', 'take', 'col', 'where_rows', 'rows', 'concatenate',
          'array', 'stack', 'arange', 'unique', 'zeros', 'ones', 'astype', 'pow',
          'column_stack', 'setitem', 'all', 'empty', 'isin', 'view', 'where3', 'copy'}


def kind(t):
    """coarse static type: num, arr, str, bytes, seq, bool, none, any"""
    if not isinstance(t, Term):
        return 'any'
    op = t.op
    if op == 'k':
        ty = t.args[0]
        if ty in ('int', 'float', 'floatx', 'complex'):
            return 'num'
        if ty in ('str', 'bytes'):
            return ty
        if t in (TRUE, FALSE):
            return 'bool'
        if t is NONE:
            return 'none'
        return 'any'
    if op in NUMOPS:
        return 'num'
    if op in ARROPS:
        return 'arr'
    if op in ('seq', 'Fs', 'map'):
        return 'seq'
    if op in ('asbytes', 'b64', 'pack', 'tobytes'):
        return 'bytes'
    if op == 'cat':
        return 'bytes' if t.args and kind(t.args[0]) == 'bytes' else 'str'
    if op == 'fmt':
        return 'str'
    if op == 'txt':
        return t.args[0]
    if op == 'stripped':
        return kind(t.args[0])
    if op in ATOMS or op == 'not':
        return 'bool'
    if op == 'bv':
        return 'num'
    if op == 'ite':
        a, b = kind(t.args[1]), kind(t.args[2])
        return a if a == b else 'any'
    if op == 'sub':
        b = t.args[0]
        i = t.args[1]
        if isinstance(i, Term) and i.op == 'seq' and any(
                x in (K(Ellipsis),) or x.op == 'slice' for x in i.args[1:]):
            return 'arr'
        if kind(b) == 'arr':
            return 'arr'
        if kind(b) == 'str':
            return 'str'
        if isinstance(i, Term) and i.op == 'slice' and kind(b) in ('seq', 'str', 'bytes'):
            return kind(b)
        if b.op == 'Fs':
            return 'num'
    if op == 'mu':
        return t.args[2] if len(t.args) > 2 else 'any'
    if op == 'call' and t.args and is_num_fun(t.args[0]):
        return 'num'
    if op == 'sym' and len(t.args) > 1 and t.args[-1] in ('num', 'str', 'arr', 'seq'):
        return t.args[-1]
    return 'any'


def is_num_fun(f):
    return isinstance(f, str) and f in ('numpy.sin', 'numpy.cos', 'numpy.diag')


def numericish(t):
    return kind(t) in ('num', 'arr', 'bool')


# ---------------------------------------------------------------- conditions
# atoms: eq(a,b)  neg(p)  (p<0)   truth(t)  isinst(t,C)  in(x,s)  raises(..) any(..)
ATOMS = {'eq', 'neg', 'truth', 'isinst', 'in', 'raises', 'any', 'nonempty', 'hasattr',
         'arrcmp', 'opq'}


def atom_of(t):
    return t.args[0] if isinstance(t, Term) and t.op == 'ite' else None


def cofactor(t, atom, val):
    """t under the assumption that atom has truth value val (only along the
    ite spine: atoms are ordered, so it is enough to look at the top)"""
    if isinstance(t, Term) and t.op == 'ite':
        if t.args[0] is atom:
            return t.args[1] if val else t.args[2]
    return t


_gate_cache = {}


def gate(f, care):
    """the condition f where care holds; the same for all f that agree there"""
    if care is TRUE or f is TRUE or f is FALSE or care is FALSE:
        return f
    r = _gate_cache.get((f, care))
    if r is None:
        r = _gate_cache[(f, care)] = _restrict(_constrain(f, care, {}), care, {})
    return r


def _tops(f, c):
    a, b = atom_of(f), atom_of(c)
    return a if b is None or a is not None and a.id <= b.id else b


def _constrain(f, c, memo):
    if c is TRUE or f is TRUE or f is FALSE:
        return f
    k = (f, c)
    if k in memo:
        return memo[k]
    x = _tops(f, c)
    f1, f0, c1, c0 = cofactor(f, x, True), cofactor(f, x, False), cofactor(c, x, True), cofactor(c, x, False)
    if c1 is FALSE:
        r = _constrain(f0, c0, memo)
    elif c0 is FALSE:
        r = _constrain(f1, c1, memo)
    else:
        r = mk_ite(raw('ite', x, TRUE, FALSE), _constrain(f1, c1, memo), _constrain(f0, c0, memo))
    memo[k] = r
    return r


def _restrict(f, c, memo):
    if c is TRUE or c is FALSE or f is TRUE or f is FALSE:
        return f
    k = (f, c)
    if k in memo:
        return memo[k]
    a, b = atom_of(f), atom_of(c)
    if a is None or b is None:
        r = f
    elif b.id < a.id:
        c1, c0 = c.args[1], c.args[2]
        r = _restrict(f, c0 if c1 is FALSE else c1 if c0 is FALSE else c_or(c1, c0), memo)
    else:
        c1, c0 = cofactor(c, a, True), cofactor(c, a, False)
        if c1 is FALSE:
            r = _restrict(f.args[2], c0, memo)
        elif c0 is FALSE:
            r = _restrict(f.args[1], c1, memo)
        else:
            r = mk_ite(raw('ite', a, TRUE, FALSE), _restrict(f.args[1], c1, memo), _restrict(f.args[2], c0, memo))
    memo[k] = r
    return r


def mk_node(atom, a, b):
    if a is b:
        return a
    # push the gate into sequences of the same shape
    if isinstance(a, Term) and isinstance(b, Term) and a.op == 'seq' == b.op \
            and a.args[0] == b.args[0] and len(a.args) == len(b.args) \
            and all((x.op == 'seg') == (y.op == 'seg') for x, y in zip(a.args[1:], b.args[1:])
                    if isinstance(x, Term) and isinstance(y, Term)) and len(a.args) > 1:
        out = []
        for x, y in zip(a.args[1:], b.args[1:]):
            if x.op == 'seg':
                out.append(seg(mk_ite_atom(atom, x.args[0], y.args[0])))
            else:
                out.append(mk_ite_atom(atom, x, y))
        return raw('seq', a.args[0], *out)
    return raw('ite', atom, a, b)


_ite_cache = {}


def mk_ite_atom(atom, a, b):
    """ite on a single atom, restoring the order of the atoms"""
    if a is b:
        return a
    key = (atom, a, b)
    r = _ite_cache.get(key)
    if r is not None:
        return r
    # assume facts implied by the atom
    a = assume(a, atom, True)
    b = assume(b, atom, False)
    if a is b:
        r = a
    else:
        ta, tb = atom_of(a), atom_of(b)
        top = min([x for x in (atom, ta, tb) if x is not None], key=lambda x: x.id)
        if top is atom:
            r = mk_node(atom, cofactor(a, atom, True), cofactor(b, atom, False))
        else:
            r1 = mk_ite_atom(atom, cofactor(a, top, True), cofactor(b, top, True))
            r0 = mk_ite_atom(atom, cofactor(a, top, False), cofactor(b, top, False))
            r = mk_node(top, r1, r0)
    _ite_cache[key] = r
    return r


_assume_cache = {}


def implied(atom, val, other):
    """truth value of `other` given atom==val, or None"""
    if other is atom:
        return val
    if val and atom.op == 'eq' and is_k(atom.args[1]):
        x, k = atom.args
        if other.op == 'eq' and other.args[0] is x and is_k(other.args[1]):
            return False
        if other.op == 'truth' and other.args[0] is x:
            try:
                return bool(kval(k))
            except Exception:
                return None
        if other.op == 'nonempty' and other.args[0] is x and k is NONE:
            return False
        if other.op == 'isinst' and other.args[0] is x:
            c = other.args[1]
            if k.args[0] in ('int', 'str', 'bytes', 'float') and c in (
                    'int', 'str', 'bytes', 'float', 'list', 'tuple', 'dict', 'set', 'numpy.ndarray',
                    'numpy.integer', 'tables.File'):
                return c == k.args[0]
            if k is NONE and isinstance(c, str):
                return False
    if val and atom.op == 'truth' and other.op == 'eq' and other.args[0] is atom.args[0] \
            and is_k(other.args[1]):
        k = kval(other.args[1])
        if not k:
            return False
    if not val and atom.op == 'truth' and other.op == 'eq' and other.args[0] is atom.args[0] \
            and is_k(other.args[1]):
        if kval(other.args[1]):
            return False
    if val and atom.op == 'isinst' and other.op == 'eq' and other.args[0] is atom.args[0] \
            and other.args[1] is NONE:
        return False
    if val and atom.op == 'isinst' and other.op == 'isinst' and other.args[0] is atom.args[0]:
        excl = ('str', 'int', 'list', 'tuple', 'numpy.ndarray', 'dict', 'set', 'float', 'bytes',
                'numpy.integer', 'tables.File')
        if atom.args[1] in excl and other.args[1] in excl:
            return False
    if atom.op == 'eq' and other.op == 'neg' and val and is_num(atom.args[1]):
        # x == k  |-  poly(x) < 0 ?
        p = subst_raw(other.args[0], {atom.args[0]: atom.args[1]})
        if is_num(p):
            return p.args[1] < 0
    if atom.op == 'neg' and other.op == 'eq' and is_num(other.args[1]):
        p = subst_raw(atom.args[0], {other.args[0]: other.args[1]})
        if is_num(p) and (p.args[1] < 0) != val:
            return False
    if atom.op == 'neg' and other.op == 'neg':
        # p<0 vs q<0, q-p constant
        d = poly_sub(other.args[0], atom.args[0])
        if is_num(d):
            c = d.args[1]
            if val and c <= 0:
                return True
            if not val and c >= 0:
                return False
    return None


def assume(t, atom, val):
    """t simplified under atom==val, along the ite spine and in seq items"""
    if not isinstance(t, Term) or t.op not in ('ite', 'seq', 'seg'):
        if val and isinstance(t, Term) and atom.op == 'eq' and is_k(atom.args[1]) \
                and atom.args[0].op in ('sym', 'mu') and occurs(atom.args[0], t):
            return subst(t, {atom.args[0]: atom.args[1]})
        return t
    key = (t, atom, val)
    r = _assume_cache.get(key)
    if r is not None:
        return r
    if t.op == 'ite':
        v = implied(atom, val, t.args[0])
        if v is not None:
            r = assume(t.args[1] if v else t.args[2], atom, val)
        else:
            a, b = assume(t.args[1], atom, val), assume(t.args[2], atom, val)
            if a is t.args[1] and b is t.args[2]:
                r = t
            else:
                r = mk_ite_atom(t.args[0], a, b)
            if val and atom.op == 'eq' and is_k(atom.args[1]) and atom.args[0].op in ('sym', 'mu') \
                    and occurs(atom.args[0], r):
                r = subst(r, {atom.args[0]: atom.args[1]})
    elif t.op == 'seq':
        r = raw('seq', t.args[0], *[assume(x, atom, val) for x in t.args[1:]])
    else:
        r = seg(assume(t.args[0], atom, val))
    _assume_cache[key] = r
    return r


def mk_ite(c, a, b):
    """c: a condition (decision diagram with TRUE/FALSE leaves)"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'ite':
        return mk_ite_atom(c.args[0], mk_ite(c.args[1], a, b), mk_ite(c.args[2], a, b))
    if c.op in ATOMS:
        return mk_ite_atom(c, a, b)
    raise Unsupported('condition %s' % show(c))


def atom(op, *args):
    """an atomic condition as a decision diagram"""
    return mk_node(raw(op, *args), TRUE, FALSE)


def c_not(c):
    return mk_ite(c, FALSE, TRUE)


def c_and(a, b):
    return mk_ite(a, b, FALSE)


def c_or(a, b):
    return mk_ite(a, TRUE, b)


def lift(f, *args):
    """apply f to ite-free arguments, distributing over the gates of args"""
    tops = [a.args[0] for a in args if isinstance(a, Term) and a.op == 'ite']
    if not tops:
        return f(*args)
    top = min(tops, key=lambda x: x.id)
    lift.depth += 1
    if lift.depth > 40:
        lift.depth = 0
        raise Unsupported('too many nested conditions')
    try:
        a1 = [cofactor(a, top, True) for a in args]
        a0 = [cofactor(a, top, False) for a in args]
        a1 = [assume(a, top, True) for a in a1]
        a0 = [assume(a, top, False) for a in a0]
        return mk_ite_atom(top, lift(f, *a1), lift(f, *a0))
    finally:
        lift.depth -= 1


lift.depth = 0


# ------------------------------------------------------------------ sequences
def seg(t):
    return raw('seg', t)


def seq(kind_, parts):
    """parts: Terms, or seg(term).  Splices nested known sequences."""
    out = []
    for p in parts:
        if isinstance(p, Term) and p.op == 'seg':
            s = p.args[0]
            if s.op == 'seq':
                out.extend(s.args[1:])
                continue
            if s.op == 'Fs':
                n = s.args[1]
                if is_k(n):
                    n = int(kval(n))
                    out.extend(F(padd(s.args[0], K(i)), s.args[2]) for i in range(n))
                    continue
            if s.op == 'k' and s.args[0] == 'tuple':
                out.extend(K(x) for x in s.args[1])
                continue
            out.append(p)
        else:
            out.append(p)
    # merge adjacent field slices
    merged = []
    for p in out:
        if merged and isinstance(p, Term) and p.op == 'seg' and p.args[0].op == 'Fs':
            q = merged[-1]
            fs = p.args[0]
            if isinstance(q, Term) and q.op == 'seg' and q.args[0].op == 'Fs' \
                    and q.args[0].args[2] == fs.args[2] \
                    and padd(q.args[0].args[0], q.args[0].args[1]) is fs.args[0]:
                merged[-1] = seg(Fs(q.args[0].args[0], padd(q.args[0].args[1], fs.args[1]), fs.args[2]))
                continue
        if merged and isinstance(p, Term):
            # F[k] followed by *F[k+1:+n]
            q = merged[-1]
            if p.op == 'seg' and p.args[0].op == 'Fs' and isinstance(q, Term) and q.op == 'F' \
                    and q.args[1] == p.args[0].args[2] and padd(q.args[0], K(1)) is p.args[0].args[0]:
                base, lo, n = p.args[0].args[2], q.args[0], padd(p.args[0].args[1], K(1))
                merged.pop()
                while merged and isinstance(merged[-1], Term) and merged[-1].op == 'F' \
                        and merged[-1].args[1] == base and padd(merged[-1].args[0], K(1)) is lo:
                    lo, n = merged.pop().args[0], padd(n, K(1))
                merged.append(seg(Fs(lo, n, base)))
                continue
            if p.op == 'F' and isinstance(q, Term) and q.op == 'seg' and q.args[0].op == 'Fs' \
                    and q.args[0].args[2] == p.args[1] \
                    and padd(q.args[0].args[0], q.args[0].args[1]) is p.args[0]:
                f = q.args[0]
                merged[-1] = seg(Fs(f.args[0], padd(f.args[1], K(1)), f.args[2]))
                continue
        merged.append(p)
    return raw('seq', kind_, *merged)


def F(i, base='cur'):
    return raw('F', i, base)


def Fs(lo, n, base='cur'):
    """the n fields from lo on, of the current record"""
    return raw('Fs', lo, n, base)


def as_parts(t):
    """parts of a sequence-valued term"""
    if t.op == 'seq':
        return list(t.args[1:])
    if t.op == 'k' and t.args[0] == 'tuple':
        return [K(x) for x in t.args[1]]
    return [seg(t)]


def seq_fixed(t):
    """list of items if the length of the sequence is known"""
    if t.op == 'seq' and not any(isinstance(p, Term) and p.op == 'seg' for p in t.args[1:]):
        return list(t.args[1:])
    if t.op == 'Fs' and is_k(t.args[1]):
        return [F(padd(t.args[0], K(i)), t.args[2]) for i in range(int(kval(t.args[1])))]
    return None


def seq_len(t):
    return lift(_seq_len, t)


def _seq_len(t):
    if t.op == 'txt':
        from . import txt
        return K(txt.length(t))
    if t.op == 'seq':
        n = K(0)
        for p in t.args[1:]:
            n = padd(n, seq_len(p.args[0]) if isinstance(p, Term) and p.op == 'seg' else K(1))
        return n
    if t.op == 'Fs':
        return t.args[1]
    if t.op == 'k' and t.args[0] in ('str', 'bytes', 'tuple'):
        return K(len(t.args[1]))
    if t.op == 'map':
        # one item per iteration?
        body = t.args[2]
        n = seq_len(body)
        if is_k(n):
            return pmul(n, t.args[1])
        if t.args[0] not in fv(n):
            return pmul(n, t.args[1])
        return raw('psum', t.args[1], t.args[0], n)
    if t.op == 'arange':
        return t.args[0]
    if t.op == 'indexin':
        return seq_len(t.args[1])
    if t.op in ('rows', 'all', 'col'):
        return raw('len', t.args[0])
    if t.op == 'fld' and t.args[0].op in ('node', 'sub', 'fld'):
        return seq_len(t.args[0])
    if t.op == 'sub':
        o, i = t.args
        if o.op == 'fld' and o.args[0].op == 'node':
            return seq_len(raw('sub', o.args[0], i))
        if i.op in ('unique', 'concatenate', 'arange') or i.op == 'poly' or i.op == 'sub' and \
                i.args[1].op in ('mask', 'slice'):
            return seq_len(i)
    if t.op == 'poly':
        vecs = [b for m, c in t.args[0] for b, e in m if b.op in ('unique', 'concatenate', 'arange', 'fld', 'sub',
                                                                            'node', 'array', 'indexin')
                and kind(b) != 'num']
        if len(vecs) == 1 and not (vecs[0].op == 'sub' and is_k(vecs[0].args[1])):
            return seq_len(vecs[0])
        ns = set(seq_len(v) for v in vecs) if not any(v.op == 'sub' and is_k(v.args[1]) for v in vecs) else ()
        if len(ns) == 1:
            return ns.pop()
    if t.op == 'take':
        return raw('len', t.args[1]) if t.args[1].op != 'seq' else seq_len(t.args[1])
    return raw('len', t)


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    """dict monomial -> Fraction"""
    if is_num(t):
        v = t.args[1]
        return {(): v} if v else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return raw('k', 'int', Fraction(0))
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return raw('k', 'int' if c.denominator == 1 else 'float', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: tuple((b.id, e) for b, e in mc[0])))
    return raw('poly', _Poly(items))


class _Poly(tuple):
    """hashable, iterable polynomial (monomials with coefficients)"""


# poly terms need fv() through the tuple
def _fv_poly(t):
    s = frozenset()
    for m, c in t.args[0]:
        for b, e in m:
            s |= fv(b)
    return s


_old_fv = fv


def fv(t):                                                      # noqa: F811
    if isinstance(t, Term) and t.op == 'poly':
        if t._fv is None:
            t._fv = _fv_poly(t)
        return t._fv
    if not isinstance(t, Term):
        return frozenset()
    if t._fv is None:
        if t.op in ('bv', 'mu'):
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for a in t.args:
                if isinstance(a, Term):
                    s |= fv(a)
            if t.op in BINDERS:
                s = s - frozenset([t.args[BINDERS[t.op]]])
            t._fv = s
    return t._fv


BINDERS = {'map': 0, 'psum': 1, 'first': 0, 'any': 0, 'lastv': 0}


def children(t):
    if t.op == 'poly':
        for m, c in t.args[0]:
            for b, e in m:
                yield b
    else:
        for a in t.args:
            if isinstance(a, Term):
                yield a


def occurs(x, t):                                               # noqa: F811
    if x is t:
        return True
    if not isinstance(t, Term):
        return False
    if x.op in ('bv', 'mu'):
        return x in fv(t)
    key = (x.id, t.id)
    r = _occ_cache.get(key)
    if r is None:
        r = any(occurs(x, a) for a in children(t))
        _occ_cache[key] = r
    return r


def subterms(t, seen=None):                                     # noqa: F811
    if seen is None:
        seen = set()
    if not isinstance(t, Term) or t in seen:
        return
    seen.add(t)
    yield t
    for a in children(t):
        for s in subterms(a, seen):
            yield s


def poly_add(a, b, k=1):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c * k
    return from_poly(p)


def _floaty(*ts):
    return any(is_k(t) and t.args[0] == 'float' for t in ts)


def padd(a, b):
    return lift(poly_add, a, b)


def psub(a, b):
    return lift(lambda x, y: poly_add(x, y, -1), a, b)


def poly_sub(a, b):
    return poly_add(a, b, -1)


def _pmul(a, b):
    r = {}
    for m1, c1 in to_poly(a).items():
        for m2, c2 in to_poly(b).items():
            d = {}
            for base, e in m1 + m2:
                d[base] = d.get(base, 0) + e
            m = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda be: be[0].id))
            r[m] = r.get(m, 0) + c1 * c2
    # sqrt(x)**2 -> x  for constants
    out = {}
    for m, c in r.items():
        mm = []
        for b, e in m:
            if b.op == 'sqrt' and is_num(b.args[0]) and e.denominator == 1 and abs(e) >= 2:
                h = int(abs(e)) // 2 * (1 if e > 0 else -1)
                c = c * b.args[0].args[1] ** h
                e = e - 2 * h
                if not e:
                    continue
            mm.append((b, e))
        mm = tuple(mm)
        out[mm] = out.get(mm, 0) + c
    return from_poly(out)


def pmul(a, b):
    return lift(_pmul, a, b)


def _ppow(a, e):
    """a ** e, e a Fraction"""
    if e == 0:
        return K(1)
    if is_num(a) and e.denominator == 1:
        return from_poly({(): a.args[1] ** int(e)}) if a.args[1] or e > 0 else raw('pow', a, K(e))
    if e.denominator == 1 and 0 < e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = _pmul(r, a)
        return r
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return from_poly({tuple((b, x * e) for b, x in m): c ** int(e)})
    return from_poly({((a, e),): Fraction(1)})


def ppow(a, e):
    return lift(lambda x: _ppow(x, e), a)


def pdiv(a, b):
    return lift(lambda x, y: _pmul(x, _ppow(y, Fraction(-1))), a, b)


# --------------------------------------------------------------- substitution
_simpl = {}         # op -> rebuild function, set by the operator modules


def subst(t, m):
    """replace terms by terms, rebuilding with the smart constructors"""
    cache = {}

    def go(x):
        if not isinstance(x, Term):
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = cache.get(x)
        if r is not None:
            return r
        if not any(True for _ in children(x)):
            r = x
        else:
            r = rebuild(x, go)
        cache[x] = r
        return r
    return go(t)


subst_raw = subst
_level = {}


def fold_level(t):
    """highest level of the folds inside t (-1: none)"""
    r = _level.get(t)
    if r is None:
        r = max([fold_level(x) for x in children(t)] + [-1])
        if t.op == 'sym' and t.args[0] in ('fold', 'foldi'):
            r = max(r, t.args[1])
        _level[t] = r
    return r


def unroll(f, k):
    """value of a fold after k iterations (its first component)"""
    inits, bodies = f.args[2].args[1:], f.args[3].args[1:]
    own = kval(f.args[4])
    vec = list(inits)
    for j in range(k):
        m = {raw('sym', 'fold', own, q): v for q, v in enumerate(vec)}
        m[raw('sym', 'foldi', own)] = K(j)
        vec = [subst(b, m) for b in bodies]
    return vec[0]


def at_iteration(t, i, k):
    """t in iteration k (a small constant) of the loop with index i"""
    cache = {}

    def go(x):
        if i not in fv(x):
            return x
        r = cache.get(x)
        if r is None:
            if x is i:
                r = K(k)
            elif x.op == 'prev' and x.args[0] is i:
                r = at_iteration(x.args[1], i, k) if k == 0 else at_iteration(x.args[2], i, k - 1)
            elif x.op == 'foldat' and x.args[0] is i:
                r = go(unroll(x.args[1], k))
            else:
                r = rebuild(x, go)
            cache[x] = r
        return r
    return go(t)


def rebuild(x, go):
    op = x.op
    if op == 'poly':
        ch = [b for m, c in x.args[0] for b, e in m]
        new = {b: go(b) for b in ch}
        if all(new[b] is b for b in ch):
            return x
        r = K(0)
        for mono, c in x.args[0]:
            tm = K(c)
            for b, e in mono:
                tm = pmul(tm, ppow(new[b], e))
            r = padd(r, tm)
        return r
    args = tuple(go(a) if isinstance(a, Term) else a for a in x.args)
    if all(p is q for p, q in zip(args, x.args)):
        return x
    if op == 'ite':
        c = args[0]
        if c is not x.args[0]:
            if c.op in ATOMS:
                c = re_atom(c)
        if c in (TRUE, FALSE) or c.op == 'ite':
            return mk_ite(c, args[1], args[2])
        return mk_ite_atom(c, args[1], args[2])
    if op in ATOMS:
        return re_atom(raw(op, *args))
    f = _simpl.get(op)
    if f:
        return f(*args)
    return raw(op, *args)


def re_atom(a):
    f = _simpl.get(a.op)
    if f:
        return f(*a.args)
    return a


def register(op):
    def deco(f):
        _simpl[op] = f
        return f
    return deco


@register('seq')
def _re_seq(k, *parts):
    return seq(k, parts)


@register('len')
def _re_len(t):
    return seq_len(t)
