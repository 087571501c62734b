"""Running the value-flow analysis on objects of the package."""
import math
from fractions import Fraction

from . import terms as T
from .terms import *                                    # noqa: F401,F403
from .interp import Interp, py, ext, Dead, Exit, UNDEF, EV, PC, POS, Unsupported, Func, is_ref, has_ref
from .terms import raw, K, seq


def sym(n):
    return raw('sym', n)


def make(I, mod, cls, args, kw=None):
    """instance of a class, constructed symbolically; (instance, exits by exception)"""
    exits = []
    I.raise_sink.append(exits)
    try:
        v = I.instantiate(I.func(mod, cls).args[0], I.func(mod, cls), list(args), dict(kw or {}))
    finally:
        I.raise_sink.pop()
    settle(I)
    return v, exits


def pc_facts(pc):
    """conditions that a path condition implies on their own"""
    out = []
    while pc.op == 'ite':
        a, x, y = pc.args
        if y is FALSE:
            out.append((a, True))
            pc = x
        elif x is FALSE:
            out.append((a, False))
            pc = y
        else:
            break
    return tuple(out)


def settle(I):
    """simplify the heap under the conditions that now hold for good; they become the context of the analysis"""
    facts = pc_facts(I.st[PC])
    I.context = getattr(I, 'context', ()) + tuple(f for f in facts if f not in getattr(I, 'context', ()))
    if I.context:
        for k in list(I.st):
            if k[0] in ('a', 'c', 'g'):
                I.st[k] = narrow(I.st[k], I.context)
    I.st[PC] = TRUE


def given(t, path):
    """t with the gates decided by the path resolved, however deep they are"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = x
            if x.op == 'ite':
                for a, v in path:
                    d = T.implied(a, v, x.args[0])
                    if d is not None:
                        r = go(x.args[1] if d else x.args[2])
                        break
                else:
                    r = T.rebuild(x, go)
            elif x.op != 'py' and x.args:
                r = T.rebuild(x, go)
            memo[x] = r
        return r
    return go(t) if isinstance(t, T.Term) else t


def inner_atom(x, y):
    """a condition inside x or y on an argument (so that it does not depend on the loops it is in)"""
    for t in (x, y):
        for s in T.subterms(t):
            if s.op == 'ite' and s.args[0].op in ('eq', 'truth', 'isinst') and s.args[0].args[0].op == 'sym' \
                    and T.kind(s.args[0].args[0]) != 'arr' and (s.args[0].op != 'eq' or s.args[0].args[1].op == 'k'):
                return s.args[0]
    return None


def product(a, b, visit, limit=4000):
    """walk two diagrams together; visit(path, leaf_a, leaf_b) for every pair of leaves that differ"""
    seen, over = set(), []

    def leaf(x, y, path, more):
        """leaves that differ may still be equal under what is known on the path"""
        if x.op != y.op or not isinstance(x, T.Term):
            visit(path, x, y)
            return
        x2, y2 = given(x, path), given(y, path)
        if x2 is y2:
            return
        known = squeezed(path)
        if known:
            x2, y2 = T.subst(x2, known), T.subst(y2, known)
            if x2 is y2:
                return
        a = inner_atom(x2, y2) if more else None
        if a is None:
            visit(path, x, y)
            return
        for v in (True, False):
            p = path + ((a, v),)
            if feasible(p):
                leaf(T.assume(x2, a, v), T.assume(y2, a, v), p, more - 1)

    def go(x, y, path):
        if x is y or (x, y) in seen:
            return
        if len(seen) > limit:
            over.append((x, y))
            return
        seen.add((x, y))
        ax, ay = T.atom_of(x), T.atom_of(y)
        if ax is None and ay is None:
            leaf(x, y, path, 6)
            return
        top = min([t for t in (ax, ay) if t is not None], key=lambda t: t.id)
        for v in (True, False):
            p = path + ((top, v),)
            go(T.assume(T.cofactor(x, top, v), top, v), T.assume(T.cofactor(y, top, v), top, v), p)
    go(a, b, ())
    return not over


def domains(path):
    """what the facts (bounds, equalities, disequalities with constants) say about integers: {monomial: [low, high, excluded]};
    None if they contradict each other"""
    from .model import integral
    dom = {}
    for a, v in path:
        if a.op == 'neg':
            p = T.to_poly(a.args[0])
        elif a.op == 'eq' and T.is_num(a.args[1]):
            p = dict(T.to_poly(a.args[0]))
            p[()] = p.get((), 0) - a.args[1].args[1]
        elif a.op == 'truth' and integral(a.args[0]):
            p, a, v = T.to_poly(a.args[0]), raw('eq'), not v
        else:
            continue
        c = p.get((), 0)
        rest = [(m, k) for m, k in p.items() if m != ()]
        if len(rest) != 1:
            continue
        m, k = rest[0]
        x = T.from_poly({m: Fraction(1)})
        if not integral(x) and x.op != 'F':             # (fields that decide about the layout hold integers)
            continue
        flag = x.op == 'stored' and x.args[0] is K('rdresref_data')     # (complex flag: 0 or 1)
        d = dom.setdefault(m, [Fraction(0), Fraction(1) if flag else None, set()] if flag or x.op == 'len' else [None, None, set()])
        z = Fraction(-c) / k

        def low(x):
            d[0] = x if d[0] is None else max(d[0], x)

        def high(x):
            d[1] = x if d[1] is None else min(d[1], x)
        if a.op == 'eq':
            if v:
                low(z)
                high(z)
                if z.denominator != 1:
                    return None
            else:
                d[2].add(z)
        elif (k > 0) == v:          # x < z, or k < 0 and not x > z
            high(math.ceil(z) - 1 if v else math.floor(z))
        else:
            low(math.floor(z) + 1 if v else math.ceil(z))
    for d in dom.values():
        if d[0] is None or d[1] is None:
            continue
        while d[0] in d[2]:
            d[0] += 1
        while d[1] in d[2]:
            d[1] -= 1
        if d[0] > d[1]:
            return None
    return dom


def feasible(path):
    return domains(path) is not None


def squeezed(path):
    """{integer: its only possible value}"""
    return {T.from_poly({m: Fraction(1)}): K(int(d[0])) for m, d in (domains(path) or {}).items()
            if d[0] is not None and d[0] == d[1]}


OPAQUE_CALLS = None


def opaque(t, allowed=frozenset()):
    """operators of a term that the analysis does not interpret (other than those the reference uses)"""
    out = set()
    for x in T.subterms(t):
        n = None
        if x.op == 'call':
            n = 'call:%s' % (x.args[0] if isinstance(x.args[0], str) else x.args[0].op,)
        elif x.op in ('fold', 'foldat', 'prev', 'trips', 'first', 'opq', 'cyc', 'nokey', 'rollaxis', 'moveaxis',
                      'instdict', 'undef', 'foldi'):
            n = x.op
        elif x.op == 'reshape' and x.args[1].op == 'seq' and K(-1) in x.args[1].args[1:]:
            n = 'reshape to -1'
        elif x.op == 'py':
            n = 'py'
        if n is not None and n not in allowed:
            out.add(n)
    return out


def outcome(I, exits):
    """one diagram of the results of a call: gates over conditions, leaves `ret(value)` / `raise(name)`"""
    out = None
    for e in reversed(exits):
        if e.kind == 'return':
            leaf = T.lift(lambda v: raw('ret', v), I.reify(e.val, e.st))
        else:
            n = I.exc_name(e.val)
            leaf = raw('exn', n if n is not None else I.reify(e.val, e.st))
        out = leaf if out is None else T.mk_ite(e.st[PC], leaf, out)
    return narrow(out, getattr(I, 'context', ()))


_atoms = {}


def atoms_in(t):
    """atomic conditions of the gates inside t"""
    r = _atoms.get(t)
    if r is None:
        r = frozenset()
        if t.op == 'ite':
            r = frozenset([t.args[0]])
        for a in T.children(t):
            r |= atoms_in(a)
        _atoms[t] = r
    return r


_subj = {}


def subjects(a):
    """what an atomic condition is about (to see which facts may decide it)"""
    r = _subj.get(a)
    if r is None:
        r = {a}
        for x in a.args:
            if isinstance(x, T.Term):
                r.add(x)
                if a.op == 'neg' or x.op == 'poly':
                    r.update(T.children(x))
        _subj[a] = r = frozenset(r)
    return r


_narrow = {}


def narrow(t, facts=()):
    """simplify every sub-term under the conditions of the gates above it"""
    if not isinstance(t, T.Term) or t.op in ('k', 'sym', 'bv', 'mu', 'py', 'ext', 'ref'):
        return t
    ats = atoms_in(t)
    if not ats:
        return t
    subj = set()
    for a in ats:
        subj |= subjects(a)
    facts = tuple(f for f in facts if subjects(f[0]) & subj)
    key = (t, frozenset(facts))
    r = _narrow.get(key)
    if r is not None:
        return r

    def decide(a):
        for f, v in facts:
            r = T.implied(f, v, a)
            if r is not None:
                return r
        return None

    if t.op == 'ite':
        a = t.args[0]
        d = decide(a)
        if d is not None:
            r = narrow(t.args[1] if d else t.args[2], facts)
        else:
            c = a
            if atoms_in(a):
                c = T.rebuild(a, lambda x: narrow(x, facts))
                if c.op in T.ATOMS:
                    c = T.re_atom(c)
                if c.op in T.ATOMS and decide(c) is not None:
                    c = TRUE if decide(c) else FALSE
            ya = narrow(t.args[1], facts + ((a, True),) + (((c, True),) if c is not a and c.op in T.ATOMS else ()))
            na = narrow(t.args[2], facts + ((a, False),) + (((c, False),) if c is not a and c.op in T.ATOMS else ()))
            r = T.mk_ite(c, ya, na)
    else:
        r = T.rebuild(t, lambda x: narrow(x, facts))
        if r.op == 'ite' and r is not t:
            r = narrow(r, facts)
    _narrow[key] = r
    return r
