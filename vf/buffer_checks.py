"""Check of the buffers and tables of the parser (property A02)."""
import os

from . import terms as T
from .terms import K, NONE, raw, seq, seg, Unsupported, padd, as_parts
from .api import sym
from .interp import Interp, py, Prim, EV
from .check import Report, HERE, REPO
from .parser_checks import P, ParserWorld, RecordCheck, coltype, deep, ev_parts, pathtext, plainform, reader_where, select

TECH = ('static value-flow analysis: the buffer classes are interpreted abstractly over blocks of symbolic records (all '
        'short blocks around the buffer size, every pattern of records with and without items), the readers over '
        'symbolic files; the appended rows are compared as value numbers')
RULE = ('rows appended to a table = the added records in order, each once; start/stop of a row delimit the items of the '
        'record within the items appended to the array; everything is written when the reader returns; get_table '
        'creates one table with its arrays per record type and returns them again for further blocks')


class Buffers(object):
    def __init__(self):
        self.I = I = Interp(REPO)
        if I.load(P) is None:
            raise Unsupported('module %s has vanished' % P)
        I.load_text('drive', os.path.join(HERE, 'spec', 'drive_buffers.py'))
        self.g = lambda n, v, m='drive': I.st.__setitem__(('g', m, n), v)

        def emit(args, kw):
            I.emit(T.kval(args[0]), *[I.D(a) for a in args[1:]])
            return NONE
        self.g('emit', py(Prim('emit', emit)))
        self.g('dtype', sym('dtype'))
        self.g('length', py(Prim('length', lambda a, kw: self.start(T.kval(a[0])))))
        for n in ('vldata', 'recdata'):
            if I.gget(P, n) is None:
                raise Unsupported('anchor %s.%s has vanished' % (P, n))
            self.g(n, I.func(P, n))
        self.g('record', py(Prim('record', lambda a, kw: self.record(a[0]))))
        self.g('items', py(Prim('items', lambda a, kw: self.items(T.kval(a[0]), T.kval(a[1])))))
        I.hooks['buffer'] = self.buffer

    def buffer(self, a):
        n = a[0]
        if n.op == 'seq' and len(n.args) == 2:
            n = n.args[1]
        if not T.is_kint(n):
            raise Unsupported('buffer of unknown size')
        if T.kval(n) > 64:
            raise Unsupported('buffer size is not tmp_arr_size')
        return self.I.new_ref('list', seq('list', [raw('unset', K(k)) for k in range(T.kval(n))]))

    def start(self, name):
        return raw('sym', 'rows already in ' + name, 'num')

    def count(self, k, j):
        return padd(K(1), raw('len', raw('sym', 'more items of record %d for array %d' % (k, j))))

    def record(self, k):
        return seq('tuple', [raw('val', K(c), k) for c in range(3)])

    def items(self, k, j):
        how = self.pattern[k][j]
        if how is None:
            return NONE
        if not how:
            return self.I.new_ref('list', seq('list', []))
        t = T.Fs(K(0), self.count(k, j), raw('sym', 'items of record %d for array %d' % (k, j)))
        return self.I.new_ref('list', seq('list', [seg(t)]))

    def scenario(self, size, pattern):
        """pattern[k][j]: record k has items for array j. [(what, got, wanted, path)] of the differences"""
        I = self.I
        self.pattern = pattern
        self.g('tmp_arr_size', K(size), P)
        narr = len(pattern[0]) if pattern else 1
        out = []
        for e in I.run(I.func('drive', 'block'), [K(len(pattern)), K(narr)]):
            if e.kind == 'raise':
                out.append(('the buffer', 'raises %s' % I.exc_name(e.val), 'no exception', ()))
                continue
            ev = select(ev_parts(e.st[EV]), ('append',))

            def leaf(x):
                self.compare([p for p in x.args[1:]], pattern, narr, out)
                return K(0)
            T.lift(leaf, ev)
        return out

    def compare(self, evs, pattern, narr, out):
        got = {}
        for p in evs:
            got.setdefault(T.kval(p.args[0]), []).append(seg(plainform(p.args[1])))
        rows = seq('tuple', got.get('table', []))
        want = []
        base = {j: self.start('array %d' % j) for j in range(narr)}
        stored = {j: [] for j in range(narr)}
        for k, p in enumerate(pattern):
            r = list(as_parts(self.record(K(k))))
            for j in range(narr):
                if p[j]:
                    stop = padd(base[j], self.count(k, j))
                    r += [base[j], stop]
                    base[j] = stop
                    stored[j].append(seg(T.Fs(K(0), self.count(k, j),
                                              raw('sym', 'items of record %d for array %d' % (k, j)))))
                else:
                    r += [None, None]
            want.append(r)
        for path, x, _ in deep(rows, K(0), ()):
            f = T.seq_fixed(x)
            if f is None:
                raise Unsupported('rows appended: %s' % T.show(x, 4))
            if len(f) != len(want):
                out.append(('number of rows', str(len(f)), str(len(want)), path))
                continue
            for k, (a, w) in enumerate(zip(f, want)):
                c = T.seq_fixed(a)
                if c is None or len(c) != len(w):
                    out.append(('row of record %d' % k, T.show(a, 4), 'the record and the range of each array', path))
                    continue
                for n, (u, v) in enumerate(zip(c, w)):
                    if v is None:
                        if n % 2 and u is not c[n + 1]:
                            out.append(('range of record %d, which has no items,' % k,
                                        '%s to %s' % (T.show(u, 4), T.show(c[n + 1], 4)), 'empty', path))
                    elif u is not v:
                        what = 'value %d of record %d' % (n, k) if n < 3 else \
                            '%s of the items of record %d in array %d' % (
                                'start' if n % 2 else 'stop', k, (n - 3) // 2)
                        out.append((what, T.show(u, 5), T.show(v, 5), path))
        for j in range(narr):
            a = seq('tuple', got.get('array %d' % j, []))
            w = seq('tuple', stored[j])
            for path, x, y in deep(a, w, ()):
                out.append(('items appended to array %d' % j, T.show(x, 5), T.show(y, 5), path))

    def patterns(self, size, tier):
        """patterns of records with (True) and without (False, None) items"""
        out = [[]]
        top = 2 * size + 1 if size < 3 else size + 1
        for n in range(1, top + 1):
            if n <= (5 if tier == 'thorough' else 4):
                for bits in range(2 ** n):
                    out.append([(bool(bits >> k & 1),) for k in range(n)])
            else:
                out.append([(True,)] * n)
                out.append([(k % 2 == 0,) for k in range(n)])
            out.append([(True, k % 2 == 1) for k in range(n)])
            out.append([(k != 1, k > 0) for k in range(n)])
            out.append([(None if k == n - 1 else True, None if k % 2 else True) for k in range(n)])
            out.append([() for k in range(n)])
        return out


def check_A02(tier):
    rep = Report('A02', tier, TECH, RULE,
                 ['Table.append and EArray.append append the given rows and items in order',
                  'the buffer classes behave alike for all buffer sizes above the analysed ones (they use the size '
                  'only to allocate the buffer and to see that it is full)'])
    try:
        b = Buffers()
        w = ParserWorld()
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    where = 'freesif/sequentialparser/parsers.py: recdata, vldata'
    for size in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for pat in b.patterns(size, tier):
            unit = 'buffer of %d rows, records with items: %s' % (
                size, ' '.join('/'.join('+' if x else '-' for x in p) or '.' for p in pat) or 'no record')

            def one(size=size, pat=pat, unit=unit):
                bad = b.scenario(size, pat)
                if bad:
                    what, got, want, path = bad[0]
                    rep.violation(unit, where, '%s: %s is %s, should be %s%s' % (
                        unit, what, got, want, ' (when %s)' % pathtext(path) if path else ''))
                else:
                    rep.good(unit)
            rep.run(unit, one)
    tables(rep)
    for name in sorted(w.records.RECORDS):
        def reader(name=name):
            if name not in w.readers or name not in w.descriptors:
                return
            chk = RecordCheck(w, rep, name)
            chk.run()
            bad = [x for x in chk.bad if about_rows(x)]
            if bad:
                rep.violation('rows of ' + name, 'freesif/sequentialparser/parsers.py:readers[%r] (%s)' % (
                    name, reader_where(w, name)), '; '.join(dict.fromkeys(bad)))
            elif any(about_rows(x) for x in chk.dunno):
                rep.unknown('rows of ' + name, '; '.join(chk.dunno)[:300])
            else:
                rep.good('rows of ' + name)
        rep.run('rows of ' + name, reader)
    rep.analysed |= {v for i in (w.I, b.I) for v in i.visited if v.startswith('freesif')}
    return rep


def about_rows(text):
    return text.startswith(('buffered rows', 'number of rows', 'number of final', 'arrays ', 'rows after', 'items of array',
                            'when buffered'))


def tables(rep, collect=None):
    """creation of the nodes of every record type; with collect only gathers {record: [(kind, name, columns)]}"""
    I = Interp(REPO)
    I.load(P)
    I.load_text('drive', os.path.join(HERE, 'spec', 'drive_buffers.py'))
    if I.gget(P, 'get_table') is None:
        rep.broken.append('anchor %s.get_table has vanished' % P)
        return
    w = ParserWorld.__new__(ParserWorld)
    w.I = I
    descriptors, w.atoms = w.table('descriptors'), w.table('atoms')
    out = sym('out_file')
    node = I.func('drive', 'Node')
    I.st[('g', 'drive', 'out')] = out
    I.st[('g', 'drive', 'get_table')] = I.func(P, 'get_table')

    def emit(args, kw):
        I.emit(T.kval(args[0]), *list(args[1:]))
        return NONE
    I.st[('g', 'drive', 'emit')] = py(Prim('emit', emit))
    I.st[('g', P, 'get_path')] = py(Prim('get_path', lambda a, kw: raw('sym', 'group of the file', 'str')))
    made = []

    def create(kind, names):
        def h(o, args, kw):
            d = dict(zip(names, args))
            d.update(kw)
            for k in ('where', 'name'):
                d[k] = I.D(d[k])
            r = I.instantiate(node.args[0], node, [K(kind), d['where'], d['name']], {})
            made.append((kind, d, r, I.st.get(('s', 'pc'))))
            return r
        return h
    I.hooks[(out, 'create_earray')] = create('earray', ['where', 'name', 'atom', 'shape', 'title', 'filters',
                                                        'expectedrows', 'chunkshape', 'byteorder', 'createparents', 'obj'])
    I.hooks[(out, 'create_table')] = create('table', ['where', 'name', 'description', 'title', 'filters', 'expectedrows',
                                                      'chunkshape', 'byteorder', 'createparents', 'obj'])
    fn = 'freesif/sequentialparser/parsers.py: get_table'
    group = I.model.cat([I.gget(P, 'root_group'), raw('sym', 'group of the file', 'str')])
    base = I.st
    for name in sorted(descriptors):
        def one(name=name):
            I.st = dict(base)
            del made[:]
            bad = []
            for e in I.run(I.func('drive', 'twice'), [K(name)]):
                if e.kind == 'raise':
                    bad.append('raises %s' % I.exc_name(e.val))
                    continue
                check(e, name, bad)
            if bad:
                rep.violation('tables of ' + name, fn, '%s: %s' % (name, '; '.join(bad)))
            else:
                rep.good('tables of ' + name)

        def check(e, name, bad):
            I.st = dict(e.st)
            if collect is not None:
                collect[name] = [(kind, T.kval(d['name']),
                                  tuple(c[0] for c in w.columns(d['description'])) if kind == 'table' else ())
                                 for kind, d, r, pc in made]
                return
            got = [p for p in ev_parts(e.st[EV]) if p.op == 'got']
            arrs = w.arrays(name)
            if [m[0] for m in made].count('table') != 1 or len(made) != 1 + len(arrs):
                bad.append('two blocks of records create %d tables and %d arrays, should be 1 and %d' % (
                    [m[0] for m in made].count('table'), [m[0] for m in made].count('earray'), len(arrs)))
                return
            byname = {}
            for kind, d, r, pc in made:
                if d['where'] is not group:
                    bad.append('%s is created in %s' % (T.show(d['name'], 3), T.show(d['where'], 4)))
                byname[T.kval(d['name'])] = (kind, d, r)
            order = [name.lower()] + ['%s_%s' % (name.lower(), n) for n, t, s in arrs]
            if sorted(byname) != sorted(order):
                bad.append('names of the nodes are %s, should be %s' % (sorted(byname), sorted(order)))
                return
            if byname[order[0]][0] != 'table':
                bad.append('%s is no table' % order[0])
            for (n, t, s), o in zip(arrs, order[1:]):
                kind, d, r = byname[o]
                atom = d.get('atom')
                typ, shape, _ = coltype(I.D(atom))
                sh = tuple(T.kval(x) for x in as_parts(I.D(d['shape'])))
                if kind != 'earray' or (typ, sh + shape) != (t, (0,) + s):
                    bad.append('array %s holds %s of shape %s, should be %s of shape %s' % (o, typ, sh + shape, t, (0,) + s))
            cols = w.columns(byname[order[0]][1]['description'])
            base_cols = w.columns(descriptors[name])
            want = base_cols + [(n + x, 'int32', ()) for n, t, s in arrs for x in ('_start', '_stop')]
            if [c[0] for c in cols] != [c[0] for c in want]:
                bad.append('columns of the table are %s, should be %s' % ([c[0] for c in cols], [c[0] for c in want]))
            elif any(a != b and not (b[0].endswith(('_start', '_stop')) and a[1:] == ('int64', ()))
                     for a, b in zip(cols, want)):
                bad.append('columns of the table are %s, should be %s' % (cols, want))
            for g, when in ((got[0].args[0], 'first'), (got[0].args[1], 'second')):
                t = I.content(g) if g.op == 'ref' and ('c', g) in I.st else g
                items = list(as_parts(t)) if t.op == 'seq' else [t]
                if items != [byname[o][2] for o in order]:
                    bad.append('the %s call does not return the table%s' % (
                        when, ' followed by its arrays in the order of their definition' if arrs else ''))
        rep.run('tables of ' + name, one)
    rep.analysed |= {v for v in I.visited if v.startswith('freesif')}
