"""Checks of the parser (properties A01 ... A05, A08)."""
import os
import sys

from . import terms as T
from .terms import K, NONE, TRUE, FALSE, raw, seq, seg, Unsupported, psub, padd, pmul, as_parts, mk_ite
from .api import sym, outcome, product, opaque, narrow, atoms_in, feasible, squeezed
from .interp import Interp, py, ext, Prim, Dead, EV, PC, POS, UNDEF, is_ref
from .model import mk_align as align
from .check import Report, HERE, REPO

P = 'freesif.sequentialparser.parsers'
REC, STR_ = ('s', 'rec'), ('s', 'str')
INFILE, OUTFILE = sym('in_file'), sym('out_file')
MEMORY = ('elem_data', 'rdpoints_data', 'nsp_data', 'rdresref_data', 'lenrec_data')
STATE = ('rec_size', 'current_ihref', 'current_indsel', 'current_seltyp', 'filetypeid', 'attoplevel', 'root_group',
         'groupname_prefix', 'has_hierarch', 'hierarch_table', 'hierarch_ihsref', 'toplevel_hrec', 'current_hrec')


class ParserWorld(object):
    def __init__(self):
        sys.path.insert(0, os.path.join(HERE, 'spec'))
        try:
            import records
        finally:
            sys.path.pop(0)
        self.records = records
        self.I = I = Interp(REPO)
        if I.load(P) is None:
            raise Unsupported('module %s has vanished' % P)
        self.readers = self.table('readers')
        self.descriptors = self.table('descriptors')
        self.atoms = self.table('atoms')
        self.setup()

    def table(self, name):
        v = self.I.func(P, name)
        items = self.I.model.dict_fixed(self.I.D(v) if v.op != 'ref' else self.I.content(v))
        if items is None:
            raise Unsupported('%s is not a table of constants' % name)
        out = {}
        for k, x in items:
            out[T.kval(k)] = x
        return out

    # -------------------------------------------------------- hooks
    def setup(self):
        I = self.I
        self.skipfirst = None

        def fields(n):
            if T.is_k(n) and T.kval(n) == 0:
                return seq('tuple', [])
            p = I.st[POS]
            I.st[POS] = padd(p, n)
            return seq('tuple', [seg(T.Fs(p, n, I.st[REC]))])

        def skip(v):
            if self.skipfirst is not None and v is not K(self.skipfirst):
                I.emit('badskip', v)

        def h_floats(o, args, kw):
            if not args:
                args = [kw['n']]
            skip(args[1] if len(args) > 1 else kw.get('skipfirst', K(0)))
            return fields(I.D(args[0]))

        def h_floatrec(o, args, kw):
            skip(args[0] if args else kw.get('skipfirst', K(0)))
            I.st[POS] = align(I.st[POS])
            return fields(K(4))

        def h_string(o, args, kw):
            k = I.st[STR_]
            I.st[POS] = align(I.st[POS])
            I.st[STR_] = padd(k, K(1))
            return raw('S', k, I.st[REC])

        def h_at(o, args, kw):
            p = I.st[POS]
            if T.is_k(p) and T.kval(p) % 4:
                return FALSE
            return T.atom('truth', raw('athdr', I.st[REC], p))

        def h_header(o, args, kw):
            I.emit('next', I.st[REC], I.st[POS], I.st[STR_], I.st[PC])
            I.st[REC] = padd(I.st[REC], K(1))
            I.st[POS] = K(4)
            I.st[STR_] = K(0)
            for m in self.mems:
                d = I.st[('a', m, 'new')]
                I.st[('c', d)] = seq('dict', [])
            r = I.st[REC]
            return seq('tuple', [raw('hdr', r), seq('tuple', [T.F(K(k), r) for k in range(4)])])

        for n, h in (('read_floats', h_floats), ('read_floatrec', h_floatrec), ('read_stringrec', h_string),
                     ('at_headerrec', h_at), ('read_headerrec', h_header)):
            I.hooks[(INFILE, n)] = h

        def emit(args, kw):
            I.emit(T.kval(args[0]), *[I.D(a) for a in args[1:]])
            return NONE

        I.load_text('contract', os.path.join(HERE, 'spec', 'contract.py'))
        g = lambda n, v, m='contract': I.st.__setitem__(('g', m, n), v)      # noqa: E731
        g('emit', py(Prim('emit', emit)))
        g('has', py(Prim('has', lambda a, kw: T.atom('truth', raw('has', I.D(a[0]), I.D(a[1]))))))
        g('stored', py(Prim('stored', lambda a, kw: raw('stored', I.D(a[0]), I.D(a[1])))))
        g('tablerow', py(Prim('tablerow', lambda a, kw: raw('trow', a[0], a[1]))))
        self.mems = []
        self.mem = {}
        cls = I.func('contract', 'Mem')
        for m in MEMORY:
            if I.gget(P, m) is None:
                continue
            r = I.instantiate(cls.args[0], cls, [K(m)], {})
            self.mem[m] = r
            self.mems.append(r)
            g(m, r, P)
        g('recdata', I.func('contract', 'recdata'), P)
        g('vldata', I.func('contract', 'vldata'), P)

        def get_table(args, kw):
            name = I.D(args[0] if args else kw['rec_name'])
            if not T.is_kstr(name):
                raise Unsupported('get_table with a computed record name')
            n = T.kval(name)
            tc = I.func('contract', 'Table')
            t = I.instantiate(tc.args[0], tc, [name], {})
            if self.atoms.get(n) is None:
                return t
            arrs = []
            for a in as_parts(I.D(self.atoms[n])):
                arrs.append(raw('arr', name, as_parts(a)[0]))
            return seq('tuple', [t] + arrs)
        g('get_table', py(Prim('get_table', get_table)), P)

        # the reference
        I.load_text('records_ref', os.path.join(HERE, 'spec', 'records_ref.py'))
        q = 'records_ref'
        g('take', py(Prim('take', lambda a, kw: fields(I.D(a[0])))), q)
        g('text', py(Prim('text', lambda a, kw: h_string(None, a, kw))), q)
        g('ended', py(Prim('ended', lambda a, kw: h_at(None, a, kw))), q)
        g('known', py(Prim('known', lambda a, kw: I.getitem(self.memory(a[0]), a[1]))), q)
        g('has', py(Prim('has', lambda a, kw: I.call(I.getattr(self.memory(a[0]), '__contains__'), [a[1]], {}))), q)

        def learn(a, kw):
            I.setitem(self.memory(a[0]), a[1], a[2])
            return NONE
        g('learn', py(Prim('learn', learn)), q)

        def row(a, kw):
            cols = I.D(a[0])
            arrs = self.records.RECORDS[self.current][1]
            items = [I.as_seq(x, 'tuple') for x in a[1:]]
            out = []
            for k, (n, t, s) in enumerate(arrs):
                x = items[k] if k < len(items) else I.as_seq(kw[n], 'tuple')
                out.append(I.D(x))
            I.emit('row', K(self.current), cols,
                   seq('tuple', [seq('tuple', [raw('arr', K(self.current), K(n)), x, x])
                                 for (n, t, s), x in zip(arrs, out)]))
            return NONE
        g('row', py(Prim('row', row)), q)
        self.refs = {}
        v = I.func('records_ref', 'REFS')
        for k, f in I.model.dict_fixed(I.content(v)):
            self.refs[T.kval(k)] = f

    def memory(self, name):
        r = self.mem.get(T.kval(name))
        if r is None:
            raise Unsupported('anchor %s.%s has vanished' % (P, T.kval(name)))
        return r

    # -------------------------------------------------------- definitions
    def columns(self, d):
        """[(name, type, shape)] of a table description in the order of its columns"""
        I = self.I
        c = I.getattr(d, 'columns')
        items = I.model.dict_fixed(I.content(c) if is_ref(c) else I.D(c))
        out = []
        for k, (n, v) in enumerate(items):
            v = I.D(v)
            if v.op != 'call':
                raise Unsupported('column %s' % (n,))
            out.append((T.kval(n), v))
        res = []
        for n, v in out:
            typ, shape, pos = coltype(v)
            res.append((pos, n, typ, shape))
        res.sort(key=lambda x: (x[0] is None, x[0], x[1]))
        return [r[1:] for r in res]

    def arrays(self, name):
        a = self.atoms.get(name)
        if a is None:
            return []
        out = []
        for x in as_parts(self.I.D(a)):
            n, t, s = as_parts(x)
            typ, shape, _ = coltype(t)
            sh = tuple(T.kval(y) for y in as_parts(s))
            out.append((T.kval(n), typ, shape + sh))
        return out

    # -------------------------------------------------------- runs
    def run_reader(self, name):
        I = self.I
        st = I.st
        self.current = name
        cols = self.records.RECORDS.get(name)
        first = cols[0][0][0] if cols and cols[0] else None
        self.skipfirst = None if name in ('DATE', 'TEXT', 'IDENT') else (0 if first == 'nfield' else 8)
        if name == 'WFKPOINT':
            self.skipfirst = 0
        st[POS], st[REC], st[STR_] = K(4), sym('r0'), K(0)
        for n in STATE:
            if ('g', P, n) in st:
                st[('g', P, n)] = sym(n)
        rec = seq('tuple', [T.F(K(k), sym('r0')) for k in range(4)])
        ex = I.run(self.readers[name], [K(name), rec, INFILE, OUTFILE])
        self.skipfirst = None
        return ex

    def run_ref(self, name):
        I = self.I
        self.current = name
        I.st[POS], I.st[REC], I.st[STR_] = K(0), sym('R'), K(0)
        for m in self.mems:
            I.st[('c', I.st[('a', m, 'new')])] = seq('dict', [])
        return I.run(self.refs[name], [])


ATOMTYPE = {'Int32Col': 'int32', 'Int32Atom': 'int32', 'Float32Col': 'float32', 'Float32Atom': 'float32',
            'Float64Col': 'float64', 'Float64Atom': 'float64', 'Int64Col': 'int64', 'Int64Atom': 'int64',
            'Int16Col': 'int16', 'Int8Col': 'int8', 'UInt8Col': 'uint8', 'UInt16Col': 'uint16', 'UInt32Col': 'uint32'}


def coltype(v):
    """(type, shape, pos) of a PyTables column or atom"""
    cls = v.args[0].split('.')[-1] if isinstance(v.args[0], str) else None
    pos, shape, itemsize = None, (), None
    extra = []
    for a in v.args[1:]:
        if a.op == 'kw':
            k, x = a.args
            if k == 'pos':
                pos = T.kval(x)
            elif k == 'shape':
                shape = tuple(T.kval(y) for y in as_parts(x)) if not T.is_kint(x) else (T.kval(x),)
            elif k == 'itemsize':
                itemsize = T.kval(x)
        else:
            extra.append(a)
    if cls in ATOMTYPE:
        typ = ATOMTYPE[cls]
        if extra:
            shape = tuple(T.kval(y) for y in as_parts(extra[0]))
    elif cls in ('ComplexCol', 'ComplexAtom'):
        size = itemsize if itemsize is not None else T.kval(extra[0])
        typ = 'complex%d' % (size * 8)
    elif cls in ('StringCol', 'StringAtom'):
        typ = 'str%d' % (itemsize if itemsize is not None else T.kval(extra[0]))
    else:
        raise Unsupported('column type %s' % (cls,))
    return typ, shape, pos


# ---------------------------------------------------------------- traces
def is_ev(x):
    return isinstance(x, T.Term)


def ev_parts(e):
    return list(e.args[1:])


def select(parts, ops):
    """the events of the given kinds, as a gated sequence (gates: conditions under which they happen)"""
    if not parts:
        return seq('tuple', [])
    p, rest = parts[0], parts[1:]
    if p.op == 'seg':
        x = p.args[0]
        if x.op == 'evif':
            return mk_ite(x.args[0], select(list(x.args[1].args[1:]) + rest, ops),
                          select(list(x.args[2].args[1:]) + rest, ops))
        if x.op == 'seq':
            return select(list(x.args[1:]) + rest, ops)
        if x.op == 'ite':
            return mk_ite(raw('ite', x.args[0], TRUE, FALSE), select([seg(x.args[1])] + rest, ops),
                          select([seg(x.args[2])] + rest, ops))
        if x.op == 'map':
            inner = select(list(x.args[2].args[1:]), ops)
            tail = select(rest, ops)
            if inner.op == 'seq' and len(inner.args) == 1:
                return tail
            m = raw('map', x.args[0], x.args[1], inner)
            return T.lift(lambda t: raw('seq', 'tuple', seg(m), *t.args[1:]), tail)
        raise Unsupported('trace %s' % x.op)
    tail = select(rest, ops)
    if p.op in ops:
        return T.lift(lambda t: raw('seq', 'tuple', p, *t.args[1:]), tail)
    return tail


class Chunk(object):
    def __init__(self, rec, parts):
        self.rec, self.parts = rec, parts
        self.next = None


def chunks(ev):
    """split a trace into the records it covers: [(chunk, repeated?)], trailing events"""
    rec = sym('r0')
    out, cur = [], []
    for p in ev_parts(ev):
        if p.op == 'seg' and p.args[0].op == 'map':
            b, n, body = p.args[0].args
            nx = [q for q in body.args[1:] if q.op == 'next']
            if nx or deep_next(body):
                if cur and any(q.op in ('row', 'rowdict', 'learn') or q.op == 'seg' for q in cur):
                    raise Unsupported('events between records')
                if len(nx) != 1 or body.args[-1].op != 'next':
                    raise Unsupported('a loop reads %d headers' % len(nx))
                c = Chunk(padd(rec, b), cur + list(body.args[1:-1]))
                c.next = body.args[-1]
                out.append(c)
                cur = []
                rec = padd(rec, n)
                continue
        elif p.op == 'next':
            c = Chunk(rec, cur)
            c.next = p
            out.append(c)
            cur = []
            rec = padd(rec, K(1))
            continue
        elif p.op == 'seg' and deep_next(p):
            raise Unsupported('a header is read conditionally')
        cur.append(p)
    return out, cur


_deep = {}


def deep_next(t):
    r = _deep.get(t)
    if r is None:
        r = _deep[t] = t.op == 'next' or any(deep_next(x) for x in T.children(t))
    return r


def plainform(t):
    """lists and tuples, 0. and 0 alike"""
    if t.op == 'k' and t.args[0] == 'float' and float(t.args[1]) == int(float(t.args[1])):
        return K(int(T.kval(t)))
    if t.op in ('k', 'sym', 'bv'):
        return t
    if t.op == 'array':
        return plainform(t.args[0])
    if t.op == 'seq':
        return splice(seq('tuple', [seg(plainform(p.args[0])) if p.op == 'seg' else plainform(p) for p in t.args[1:]]))
    return T.rebuild(t, plainform)


def splice(t):
    """gates of whole parts of a sequence become gates of the sequence"""
    if t.op == 'ite':
        return mk_ite(raw('ite', t.args[0], TRUE, FALSE), splice(t.args[1]), splice(t.args[2]))
    if t.op != 'seq':
        return t
    for k, p in enumerate(t.args[1:]):
        if p.op == 'seg' and p.args[0].op == 'ite':
            x = p.args[0]
            a, b = list(t.args[1:]), list(t.args[1:])
            a[k], b[k] = seg(x.args[1]), seg(x.args[2])
            return mk_ite(raw('ite', x.args[0], TRUE, FALSE), splice(seq(t.args[0], a)), splice(seq(t.args[0], b)))
    return t


def expand(t, limit=300):
    """all gates of t that do not depend on a loop inside t, moved to the top"""
    seen = [0]

    def go(x):
        seen[0] += 1
        if seen[0] > limit:
            return x
        ats = [a for a in atoms_in(x) if not any(b.op == 'bv' for b in T.fv(a))]
        if not ats:
            return x
        a = min(ats, key=lambda y: y.id)
        hi, lo = decided(x, a, True), decided(x, a, False)
        return mk_ite(raw('ite', a, TRUE, FALSE), go(hi), go(lo))
    return go(narrow(t))


def decided(t, a, v):
    """t where atom a has truth value v"""
    def go(x):
        if a not in atoms_in(x):
            return x
        if x.op == 'ite' and x.args[0] is a:
            return go(x.args[1] if v else x.args[2])
        return T.rebuild(x, go)
    r = go(t)
    if v and a.op == 'eq' and T.is_k(a.args[1]) and a.args[0].op not in ('k', 'poly'):
        r = T.subst(r, {a.args[0]: a.args[1]})
    return narrow(T.assume(r, a, v), ((a, v),))


def cast(t, typ):
    """value as stored in a column of the given type"""
    while True:
        if t.op == 'ite':
            return mk_ite(raw('ite', t.args[0], TRUE, FALSE), cast(t.args[1], typ), cast(t.args[2], typ))
        if typ.startswith('int') and t.op in ('int', 'float', 'round'):
            t = t.args[0]
            continue
        if typ.startswith('float') and t.op == 'float':
            t = t.args[0]
            continue
        if typ.startswith('complex'):
            if t.op in ('float',):
                t = t.args[0]
                continue
            if t.op == 'complex' and t.args[1] in (K(0), K(0.)):
                t = t.args[0]
                continue
            if t.op == 'poly':
                parts = re_im(t)
                if parts is not None:
                    t = parts[0] if parts[1] is K(0) else raw('complex', *parts)
        return t


def re_im(t):
    """real and imaginary part of a sum of real terms and real terms times 1j"""
    re, im = {}, {}
    for m, c in t.args[0]:
        f = [(b, e) for b, e in m if T.is_k(b) and b.args[0] == 'complex']
        if not f:
            re[m] = c
        elif len(f) == 1 and T.kval(f[0][0]) == 1j and f[0][1] == 1:
            im[tuple(x for x in m if x != f[0])] = c
        else:
            return None
    return (T.from_poly(re), T.from_poly(im)) if im else None


def item(t, typ):
    """an array item or column value, cast at its innermost level"""
    t = plainform(t)

    def go(x):
        if x.op == 'seq':
            return seq('tuple', [seg(go(p.args[0])) if p.op == 'seg' else go(p) for p in x.args[1:]])
        if x.op == 'map':
            return raw('map', x.args[0], x.args[1], go(x.args[2]))
        if x.op == 'ite':
            return mk_ite(raw('ite', x.args[0], TRUE, FALSE), go(x.args[1]), go(x.args[2]))
        return cast(x, typ)
    return go(t)


def whole(t):
    """a sequence that is not spelled out, as the items it consists of"""
    if t.op == 'ite':
        return mk_ite(raw('ite', t.args[0], TRUE, FALSE), whole(t.args[1]), whole(t.args[2]))
    if t.op == 'seq' and len(t.args) == 2 and t.args[1].op == 'seg' and t.args[1].args[0].op == 'ite':
        return whole(t.args[1].args[0])
    if t.op == 'seq' and any(p.op == 'seg' and p.args[0].op == 'sub' for p in t.args[1:]):
        return seq('tuple', [seg(part_of(p.args[0])) if p.op == 'seg' else p for p in t.args[1:]])
    if t.op in ('fold', 'Fs', 'sub', 'map'):
        return seq('tuple', [seg(part_of(t))])
    return t


def part_of(t):
    """(a, b, c, d)[1:1+n] as (b, c, d)[:n]; n is a count"""
    if t.op == 'sub' and t.args[1].op == 'slice' and t.args[1].args[2] in (T.NONE, K(1)):
        f = T.seq_fixed(t.args[0])
        lo, hi = t.args[1].args[:2]
        if f is not None and T.is_kint(lo) and T.kval(lo) > 0 and hi is not T.NONE and not T.is_k(hi):
            hi = T.psub(hi, lo)
            if not T.is_k(hi):
                return raw('sub', seq('tuple', f[T.kval(lo):]), raw('slice', T.NONE, hi, T.NONE))
    return t


def flat(t, shape):
    """nested value of a column with the given shape as a flat tuple"""
    if not shape:
        return t
    if t.op == 'ite':
        return mk_ite(raw('ite', t.args[0], TRUE, FALSE), flat(t.args[1], shape), flat(t.args[2], shape))
    if t.op == 'reshape':
        return flat(t.args[0], shape)
    f = T.seq_fixed(t)
    if f is None:
        return t
    if all(T.seq_fixed(x) is not None for x in f) and f:
        out = []
        for x in f:
            y = flat(x, shape)
            if y.op != 'seq':
                return t
            out.extend(y.args[1:])
        return seq('tuple', out)
    return t


def cells(row, cols, arrs):
    """{column or array: value} of a row event"""
    rec = plainform(row.args[1])
    vals = {}
    f = T.seq_fixed(rec)
    if f is None:
        raise Unsupported('row of unknown length: %s' % T.show(rec, 4))
    vals['number of values'] = K(len(f))
    for (n, t, s), v in zip(cols, f):
        vals['column ' + n] = flat(item(v, t), s)
    got = []
    for a in as_parts(row.args[2]):
        arr, last, since = as_parts(a)
        n = T.kval(arr.args[1])
        got.append(n)
        t = [x[1] for x in arrs if x[0] == n]
        vals['items of array ' + n] = whole(item(last, t[0] if t else 'float32'))
    vals['arrays'] = K(', '.join(got))
    return vals


def rowdict(e, fields, cols):
    vals = {}
    for f in fields:
        if f.args[0] is not e.args[0]:
            raise Unsupported('row of another table')
        if not T.is_kstr(f.args[1]):
            raise Unsupported('row filled with computed names')
        vals[T.kval(f.args[1])] = f.args[2]
    return raw('row', e.args[0], seq('tuple', [vals.get(n, K(0)) for n, t, s in cols]), seq('tuple', []))


# ---------------------------------------------------------------- comparison of one record
def in_loop(t, name):
    """drop what the loop condition says about the current name"""
    while True:
        hit = None
        for a in sorted(atoms_in(t), key=lambda a: a.id):
            if a.op == 'eq' and K(name) in a.args and any(x.op in ('hdr', 'prev') for y in a.args
                                                          for x in T.subterms(y)):
                hit = a
                break
        if hit is None:
            return t
        t = T.assume(T.cofactor(t, hit, True), hit, True)
        if hit in atoms_in(t):
            return t


def facts(t, path):
    """t on a path on which some terms equal constants"""
    d = {}
    for a, v in path:
        if v and a.op == 'eq' and T.is_k(a.args[1]) and a.args[0].op not in ('k', 'poly'):
            d[a.args[0]] = a.args[1]
    return T.subst(t, d) if d else t


def differ(a, b, cond=TRUE, limit=200):
    """leaves of two gated terms that differ where cond holds: [(path, a, b)]"""
    out = []
    na = mk_ite(cond, a, K('-')) if cond is not TRUE else a
    nb = mk_ite(cond, b, K('-')) if cond is not TRUE else b
    if not product(narrow(na), narrow(nb), lambda path, x, y: out.append((path, x, y))) and not out:
        raise T.Unsupported('too many cases to compare')
    return out


def deep(x, y, path, budget=None):
    """differences of two terms after deciding the gates inside them: [(path, x, y)]"""
    if budget is None:
        budget = [400]
    if x is y or not feasible(path):
        return []
    ats = [a for a in atoms_in(x) | atoms_in(y) if not any(b.op == 'bv' for b in T.fv(a))]
    budget[0] -= 1
    if not ats or budget[0] < 0:
        known = squeezed(path)
        if known and T.subst(x, known) is T.subst(y, known):
            return []
        return [(path, x, y)]
    a = min(ats, key=lambda y: y.id)
    out = []
    for v in (True, False):
        out += deep(decided(x, a, v), decided(y, a, v), path + ((a, v),), budget)
    return out


def peeled(a, b, cond, text='', depth=0):
    """the terms with the loops inside executed 0, 1 or 2 times: (text, a, b, cond)"""
    ns = [x.args[0] for t in (a, b, cond) for x in T.subterms(t)
          if x.op == 'fold' and x.args[1] is TRUE and x.args[0] is not TRUE and not T.is_k(x.args[0])
          and not any(y.op == 'bv' or y.op == 'sym' and y.args[0] in ('fold', 'foldi') for y in T.subterms(x.args[0]))]
    if not ns or depth > 2:
        if depth:
            yield text, a, b, cond
        return
    n = min(ns, key=lambda y: y.id)
    for k in range(3):
        x, y, c = [unfold(T.subst(t, {n: K(k)})) for t in (a, b, cond)]
        for r in peeled(x, y, c, '%s (%d for %s)' % (text, k, T.show(n, 5)), depth + 1):
            yield r


def unfold(t):
    """folds over constant numbers of iterations, executed"""
    while True:
        f = [x for x in T.subterms(t) if x.op == 'fold' and x.args[1] is TRUE and T.is_kint(x.args[0])]
        if not f:
            return t
        f = min(f, key=lambda x: T.kval(x.args[4]))
        t = T.subst(t, {f: T.unroll(f, T.kval(f.args[0]))})


def least(t, path):
    """least value of a sum of counts and flags (which are 1 or more where the path says they are not 0)"""
    nz = set(a.args[0] for a, v in path if not v and a.op == 'eq' and a.args[1] is K(0))
    n = 0
    for m, c in T.to_poly(t).items():
        if m and c < 0:
            return None
        n += c if all(b in nz for b, e in m) else 0
    return n


def direct(t, path):
    """items of slices as items of what is sliced: x[i:j][k] is x[i + k], where k < j - i"""
    while True:
        d = {}
        for x in T.subterms(t):
            if x.op != 'sub' or not T.is_kint(x.args[1]) or T.kval(x.args[1]) < 0:
                continue
            s = x.args[0]
            if s.op != 'sub' or s.args[1].op != 'slice' or s.args[1].args[2] not in (NONE, K(1)):
                continue
            lo, hi = s.args[1].args[:2]
            lo = K(0) if lo is NONE else lo
            if (least(lo, path) or 0) < 0 or least(lo, path) is None:
                continue
            room = None if hi is NONE else least(psub(psub(hi, lo), x.args[1]), path)
            if hi is NONE or room is not None and room > 0:
                d[x] = raw('sub', s.args[0], padd(lo, x.args[1]))
        if not d:
            return t
        t = T.subst(t, d)


def pathtext(path):
    return ' and '.join(('' if v else 'not ') + '(%s)' % T.show(a, 5) for a, v in path) or 'always'


def excs(w, exits):
    out = set()
    for e in exits:
        if e.kind == 'raise':
            n = w.I.exc_name(e.val)
            out.add(n if n is not None else T.show(e.val, 3))
    return out


class RecordCheck(object):
    def __init__(self, w, rep, name):
        self.w, self.rep, self.name = w, rep, name
        self.cols, self.arrs = w.records.RECORDS[name]
        self.bad, self.dunno = [], []

    def judge(self, what, a, b, cond=TRUE):
        if a is b:
            return
        before, bad = len(self.dunno), len(self.bad)
        self.judge1(what, a, b, cond)
        if len(self.dunno) == before or len(self.bad) > bad:
            return
        # loops without a closed form: look at small numbers of iterations
        for text, x, y, c in peeled(a, b, cond):
            n = len(self.dunno)
            self.judge1(what, x, y, c, text)
            del self.dunno[n:]
            if len(self.bad) > bad:
                return

    def judge1(self, what, a, b, cond, text=''):
        a, b = expand(a), expand(b)
        for path, x, y in differ(a, b, cond):
            for path, x, y in deep(facts(x, path), facts(y, path), path):
                self.differs(what + text, path, x, y)

    def differs(self, what, path, x, y):
        if direct(x, path) is direct(y, path):
            return
        if any(not any(b.op == 'bv' for b in T.fv(a)) for a in atoms_in(x) | atoms_in(y)):
            self.dunno.append('%s: too many cases' % what)
            return
        ops = opaque(x, opaque(y) - {'fold', 'foldat', 'prev'}) if x.op != 'k' or y.op == 'k' else opaque(x)
        if ops and not (T.seq_fixed(x) is not None and T.seq_fixed(y) is not None
                        and len(T.seq_fixed(x)) != len(T.seq_fixed(y))):
            self.dunno.append('%s: %s' % (what, ', '.join(sorted(ops))))
            return
        self.bad.append('%s is %s, should be %s (when %s)' % (
            what, T.show(x, 5)[:300], T.show(y, 5)[:300], pathtext(path)[:300]))

    def run(self):
        w, name = self.w, self.name
        I = w.I
        I.unknown.clear()
        ref = w.run_ref(name)
        refret = [e for e in ref if e.kind == 'return']
        if len(refret) != 1:
            raise Unsupported('reference of %s' % name)
        rs = refret[0].st
        refpc = rs[PC]
        refrow = select(ev_parts(rs[EV]), ('row',))
        reflearn = select(ev_parts(rs[EV]), ('learn',))
        refpos = rs[POS]
        refstr = rs[STR_]
        ex = w.run_reader(name)
        rets = [e for e in ex if e.kind == 'return']
        refexc = excs(w, ref)
        for n in sorted(excs(w, ex) - refexc):
            if n in ('NameError', 'AttributeError', 'TypeError', 'UnboundLocalError'):
                self.dunno.append('may raise %s' % n)
            else:
                self.bad.append('raises %s' % n)
        for n in sorted(refexc - excs(w, ex)):
            if n != 'KeyError':
                self.bad.append('does not raise %s' % n)
        if not rets:
            self.bad.append('never returns')
            return
        for e in rets:
            st = e.st
            cs, tail = chunks(st[EV])
            if not cs:
                self.bad.append('reads no header record')
                continue
            for c in cs:
                before = len(self.dunno)
                self.chunk(c, refpc, refrow, reflearn, refpos, refstr)
                if len(self.dunno) > before and any(b.op == 'bv' for b in T.fv(c.rec)):
                    # state carried from one record to the next: look at the first records one by one
                    note = list(self.dunno)
                    for k in range(3):
                        if not self.bad:
                            self.chunk(c, refpc, refrow, reflearn, refpos, refstr, k)
                    self.dunno = note
            self.tail(e, cs, tail)
            self.state(e)

    def chunk(self, c, refpc, refrow, reflearn, refpos, refstr, at=None):
        w, name = self.w, self.name
        sub = lambda t: T.subst(t, to)                          # noqa: E731
        nrec, npos, nstr, npc = c.next.args
        if nrec is not c.rec:
            raise Unsupported('numbering of records')
        c0, c = c, Chunk(c.rec, c.parts)
        c.next = c0.next
        for b in T.fv(c.rec):
            if b.op == 'bv':                    # any iteration
                if at is None:
                    j = {b: sym('j')}
                    go = lambda t: T.subst(t, j)                # noqa: E731
                else:
                    go = lambda t: T.at_iteration(t, b, at)     # noqa: E731
                c.rec = go(c.rec)
                c.parts = [go(p) for p in c.parts]
                c.next = go(c.next)
        nrec, npos, nstr, npc = c.next.args
        to = {sym('R'): c.rec}
        cond = sub(refpc)
        mine = in_loop(select(c.parts, ('row', 'rowdict', 'field')), name)
        skips = in_loop(select(c.parts, ('badskip',)), name)
        if skips is not seq('tuple', []):
            self.bad.append('reads fields with the wrong skipfirst')
        writes = select(c.parts, ('write',))
        if writes is not seq('tuple', []) and c is not None:
            self.midwrite = True

        def shape(t):
            return T.lift(lambda x: K(1) if x.op == 'row' else K(len(x.args) - 1)
                          if not any(p.op == 'seg' for p in x.args[1:]) else raw('opq', x), t)
        mine, ref = self.rows(mine), self.rows(sub(refrow))
        na, nb = shape(mine), shape(ref)
        if na is not nb:
            d = differ(na, nb, cond)
            if d:
                self.judge('number of rows of a record', na, nb, cond)
                if self.bad or self.dunno:
                    return
        for key in sorted(self.allkeys(mine, ref)):
            a, b = self.cell(mine, key), self.cell(ref, key)
            self.judge(key, in_loop(a, name), b, cond)
        la = in_loop(T.rebuild(plainform(select(c.parts, ('learn',))), lambda x: x), name)
        self.judge('what is kept for later records', learnform(la), learnform(plainform(sub(reflearn))), cond)
        self.judge('number of fields read', in_loop(plainform(lines(npos)), name), plainform(lines(sub(refpos))), cond)
        self.judge('number of text lines read', in_loop(plainform(nstr), name), plainform(sub(refstr)), cond)

    def rows(self, t):
        """gated single rows"""
        def one(x):
            f, named = [], []
            for p in x.args[1:]:
                if p.op == 'field':
                    named.append(p)
                elif p.op == 'rowdict':
                    f.append(rowdict(p, named, self.cols))
                    named = []
                else:
                    f.append(p)
            if len(f) != 1 or f[0].op == 'seg':
                return x
            return T.lift(row, f[0])

        def row(e):
            return T.lift(lambda r: raw('row', e.args[0], r, e.args[2]), expand(plainform(e.args[1])))
        return T.lift(one, t)

    def leafcells(self, e):
        if e.op != 'row':
            return {}
        r = cells(e, self.cols, self.arrs)
        r['table'] = e.args[0]
        return r

    def allkeys(self, a, b):
        out = set()
        for t in (a, b):
            T.lift(lambda x: (out.update(self.leafcells(x)), K(0))[1], t)
        return out

    def cell(self, t, key):
        return T.lift(lambda x: self.leafcells(x).get(key, K('nothing')), t)

    def tail(self, e, cs, tail):
        name = self.name
        t = seq('ev', tail)
        w = select(tail, ('write',))
        n = T.lift(lambda x: K(len(x.args) - 1), w)
        lastone = cs[-1]
        if n is K(0) and lastone.next.args[0] is sym('r0'):
            # the only record: rows written before its successor is read
            self.midwrite = False
            w = select(lastone.parts, ('row', 'rowdict', 'write'))
            n = T.lift(lambda x: K(sum(p.op == 'write' for p in x.args[1:]) if x.args[-1].op == 'write' else 0)
                       if len(x.args) > 1 else K(0), w)
        if n is K(0):
            if not getattr(self, 'midwrite', False):
                self.bad.append('buffered rows are not written before the reader returns')
            else:
                self.dunno.append('when buffered rows are written')
        elif T.is_k(n) and T.kval(n) > 1 or getattr(self, 'midwrite', False) and name not in ('IDENT',):
            if any(q.op == 'rowdict' for c in cs for q in c.parts):
                pass                    # Table.flush may be called at any time
            else:
                self.bad.append('buffered rows are written more than once')
        elif not T.is_k(n):
            self.judge('number of final writes', n, K(1))
        if select(tail, ('row', 'rowdict')) is not seq('tuple', []):
            self.dunno.append('rows after the last record')
        # the header that follows
        last = sym('r0')
        nx = cs[-1]
        n0 = nx.next.args[0]
        end = padd(nx.rec, K(1))
        for b in T.fv(end):
            if b.op == 'bv':
                end = T.subst(end, {b: psub(raw('trips'), K(1))})
        want = seq('tuple', [raw('hdr', end), seq('tuple', [T.F(K(k), end) for k in range(4)])])
        got = plainform(self.w.I.reify(e.val, e.st))
        zero = T.atom('eq', raw('trips'), K(0))
        got = T.assume(T.cofactor(got, zero.args[0], False), zero.args[0], False) if zero.op == 'ite' else got
        self.judge('returned header', in_loop(got, self.name), want)

    def state(self, e):
        """module state that the record sets"""
        w, name = self.w, self.name
        r0 = sym('r0')
        want = {}
        F = lambda k: raw('int', T.F(K(k), r0))                 # noqa: E731
        if name == 'HIERARCH':
            row = raw('trow', K(name), K(0))
            want = {'current_seltyp': F(2), 'has_hierarch': TRUE, 'attoplevel': TRUE, 'toplevel_hrec': row,
                    'current_hrec': row}
        elif name == 'IDENT':
            s = sym('current_seltyp')
            want = {'current_seltyp': mk_ite(w.I.model.truth(s), s, F(1))}
        for n in STATE:
            if ('g', P, n) not in w.I.st:
                continue
            if name == 'HIERARCH' and n in ('hierarch_table', 'hierarch_ihsref'):
                continue
            got = e.st.get(('g', P, n))
            exp = want.get(n, sym(n))
            if got is not exp:
                self.judge('module variable ' + n, intless(plainform(got)), intless(plainform(exp)))


def intless(t):
    return T.rebuild(t, intless) if t.op != 'int' else intless(t.args[0])


def learnform(t):
    return intless(t)


def lines(pos):
    """fields up to the end of the line (all lines but the last are full)"""
    return align(pos) if T.is_k(pos) else pos


TECH_P = ('static value-flow analysis of every record reader (syntax tree to gated value numbers, loops summarised, the '
          'file replaced by its numbered fields) compared with a declarative description of the record')
RULE_A01 = ('for every record type: the column and array definitions equal the record definition; the row and array items '
            'emitted for a record, the fields and lines consumed, what is kept for later records and the exceptions '
            'equal those of the reference description as gated value numbers, for the first and every further record')


def check_A01(tier):
    rep = Report('A01', tier, TECH_P, RULE_A01,
                 ['recdata, vldata and get_table do what property A02 checks',
                  'read_floats, read_floatrec, read_stringrec, read_headerrec and at_headerrec do what A04 checks',
                  'PyTables orders columns by pos, then name, and converts values to the type of the column'])
    try:
        w = ParserWorld()
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    for name in sorted(w.records.RECORDS):
        def one(name=name):
            cols, arrs = w.records.RECORDS[name]
            where = 'freesif/sequentialparser/parsers.py:readers[%r]' % name
            if name not in w.readers:
                rep.violation(name, where, 'record type %s has no reader' % name)
                return
            where = '%s (%s)' % (where, reader_where(w, name))
            if name not in w.descriptors:
                rep.violation(name + ' definition', where, 'no table description')
                return
            c, a = w.columns(w.descriptors[name]), w.arrays(name)
            deftext = [x for x in diff_defs(c, cols, 'column') + diff_defs(a, arrs, 'array')]
            if deftext:
                rep.violation(name + ' definition', where, '; '.join(deftext))
            else:
                rep.good(name + ' definition')
            chk = RecordCheck(w, rep, name)
            chk.run()
            if chk.bad:
                rep.violation(name, where, '; '.join(dict.fromkeys(chk.bad)))
            elif chk.dunno:
                rep.unknown(name, '; '.join(dict.fromkeys(chk.dunno))[:400])
            else:
                rep.good(name)
        rep.run(name, one)
    rep.analysed |= {v for v in w.I.visited if v.startswith('freesif')}
    return rep


def diff_defs(a, b, what):
    """definitions that differ from the record definition (the order of columns matters, the number of extra array
    dimensions too)"""
    out = []
    if [x[0] for x in a] != [x[0] for x in b]:
        out.append('%ss are %s, should be %s' % (what, [x[0] for x in a], [x[0] for x in b]))
    for x, y in zip(a, b):
        if x[0] == y[0] and x[1:] != y[1:] and not wider(x, y):
            out.append('%s %s is %s%s, should be %s%s' % (what, x[0], x[1], x[2], y[1], y[2]))
    return out


WIDER = {'int32': ('int64',), 'float32': ('float64',), 'complex64': ('complex128',)}


def wider(x, y):
    return x[2] == y[2] and x[1] in WIDER.get(y[1], ())


def reader_where(w, name):
    v = w.readers[name]
    if v.op == 'py':
        o = v.args[0]
        return getattr(o, 'name', '') or ''
    return ''
