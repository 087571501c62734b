"""The VTU writer (C01 documents, C02 arrays, C03 cells)."""
import html
import itertools
import os
import xml.sax.saxutils as sax
from xml.parsers import expat

from . import dense
from . import terms as T
from .terms import K, NONE, raw, seq, Unsupported
from .interp import Interp, py, Prim, EV
from .check import Report, HERE, REPO
from .model import itemsize

W = 'freesif.utils.writers'
WHERE = 'freesif/utils/writers.py: VtuWriter'
TECH = ('static value-flow analysis: VtuWriter is interpreted abstractly for sequences of calls; the text it writes is a term of '
        'constants and opaque parts (encoded arrays, quoted names) that is parsed and compared with the document required')
LETTER = 0xE000                     # private letters stand for opaque parts
NAMES = ('displacement', 'a<b', 'x & y', 'say "hi"', "it's", '"\'<>&', 'tab\there', 'g\u00f8y', '')
VTK = {15: 3, 23: 21, 24: 9, 25: 5, 26: 22, 28: 23}
NODES = {15: 2, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
CON = {23: [0, 2, 1], 28: [0, 2, 4, 6, 1, 3, 5, 7]}
RES = {26: [0, 2, 4, 1, 3, 5]}
DT = {'int8': 'Int8', 'uint8': 'UInt8', 'int16': 'Int16', 'uint16': 'UInt16', 'int32': 'Int32', 'uint32': 'UInt32',
      'int64': 'Int64', 'uint64': 'UInt64', 'float32': 'Float32', 'float64': 'Float64'}
WIDE = {v: k for k, v in DT.items() if k in ('int32', 'int64', 'uint32', 'uint64')}
TINY = {v: k for k, v in DT.items() if 'int' in k}


class Bad(Exception):
    """what is wrong"""


def fold(f, name):
    def h(args, kw):
        return f(*args, **kw)
    return h


class Desk(object):
    """an interpreter prepared for the writer"""
    def __init__(self):
        I = self.I = Interp(REPO)
        if I.load(W) is None:
            raise Unsupported('module %s has vanished' % W)
        I.load_text('drive', os.path.join(HERE, 'spec', 'drive_files.py'))
        I.unroll = 400
        self.cls = I.func(W, 'VtuWriter')
        err = I.load('freesif.exceptions')
        if err is None:
            raise Unsupported('module freesif.exceptions has vanished')
        self.err = I.func('freesif.exceptions', 'VtkError')
        D = I.D

        def opened(a, kw):
            mode = D(a[1] if len(a) > 1 else kw.get('mode', K('r')))
            if not T.is_kstr(mode) or 'w' not in T.kval(mode):
                raise Unsupported('mode of the file')
            if 'b' not in T.kval(mode):
                e = D(kw.get('encoding', K(None)))
                if not T.is_kstr(e) or T.kval(e).lower().replace('-', '') != 'utf8':
                    raise Unsupported('encoding of the file')
            c = I.func('drive', 'Sheet')
            return I.instantiate(c.args[0], c, [], {})
        I.hooks['open'] = I.hooks['io.open'] = opened

        def emit(args, kw):
            I.emit(T.kval(args[0]), *[D(a) for a in args[1:]])
            return NONE
        I.st[('g', 'drive', 'emit')] = py(Prim('emit', emit))

        def entities(a, kw):
            e = D(kw.get('entities', a[1] if len(a) > 1 else NONE))
            if e is NONE or e.op == 'seq' and len(e.args) == 1:
                return {}
            raise Unsupported('entities')

        def text(name, f):
            def h(a, kw):
                x = D(a[0])
                e = entities(a, kw)
                return K(f(T.kval(x), e)) if T.is_kstr(x) else raw(name, x)
            return h
        I.hooks['xml.sax.saxutils.quoteattr'] = text('quoteattr', sax.quoteattr)
        I.hooks['xml.sax.saxutils.escape'] = text('escape', sax.escape)

        def hescape(a, kw):
            x, q = D(a[0]), D(kw.get('quote', a[1] if len(a) > 1 else K(True)))
            if q is not K(True):
                raise Unsupported('html.escape without quotes')
            return K(html.escape(T.kval(x))) if T.is_kstr(x) else raw('hescape', x)
        I.hooks['html.escape'] = hescape
        I.hooks['base64.b64encode'] = I.hooks['base64.standard_b64encode'] = lambda a, kw: raw('b64', D(a[0]))

        def pack(a, kw):
            f = D(a[0])
            if not T.is_kstr(f):
                raise Unsupported('struct.pack')
            return raw('pack', f, *[D(x) for x in a[1:]])
        I.hooks['struct.pack'] = pack

        def to_bytes(o, a, kw):
            n, order = D(a[0] if a else kw.get('length', K(1))), D(a[1] if len(a) > 1 else kw.get('byteorder', K('big')))
            return raw('pack', K('<Q' if (n, order) == (K(8), K('little')) else '?'), D(o))
        I.hooks[('*', 'to_bytes')] = to_bytes

        def tobytes(o, a, kw):
            order = D(a[0] if a else kw.get('order', K('C')))
            x = I.content(o) if o.op == 'ref' and o.args[1] == 'box' else D(o)
            if T.kind(x) != 'arr' and self.declared(x) is None:
                return NotImplemented
            return raw('tobytes', x, K('C') if order is NONE else order)
        I.hooks[('*', 'tostring')] = I.hooks[('*', 'tobytes')] = tobytes
        self.fresh()

    def declared(self, x):
        return self.I.model.declared(x)

    def fresh(self):
        if not hasattr(self, 'base'):
            self.base = dict(self.I.st)
        self.I.st = dict(self.base)
        self.I.arrays = {}

    def array(self, name, shape, dtype='float64'):
        t = raw('sym', name, 'arr')
        self.I.arrays[t] = (tuple(K(x) for x in shape), dtype)
        return self.I.new_box(t)

    def ints(self, xs):
        return self.I.new_box(raw('array', seq('list', [K(x) for x in xs])))

    def run(self, steps):
        """[(op, args)] -> (outcomes of the calls, their texts, what closing writes)"""
        t = seq('tuple', [seq('tuple', [K(op), seq('tuple', list(a))]) for op, a in steps])
        ex = self.I.run(self.I.func('drive', 'vtu'), [self.cls, self.err, t])
        if len(ex) != 1:
            raise Unsupported('outcome of a call is not determined')
        e = ex[0]
        self.final = e.st
        if e.kind == 'raise':
            raise Bad('%s is raised when the document is opened or closed' % T.show(e.val, 3))
        calls = [['done', []]]
        closed = 0
        for p in e.st[EV].args[1:]:
            if p.op == 'call':
                calls.append(['done', []])
            elif p.op in ('refused', 'failed'):
                calls[-1][0] = p.op
            elif p.op == 'write':
                calls[-1][1].append(p.args[0])
            elif p.op == 'late':
                raise Bad('written after the file is closed')
            elif p.op == 'close':
                closed += 1
                if len(calls) != len(steps) + 2:
                    raise Bad('the file is closed before close() is called')
        if not closed:
            raise Bad('the file is not closed')
        return calls


class Node(object):
    def __init__(self, tag, att):
        self.tag, self.att, self.kids, self.text = tag, att, [], ''

    def find(self, tag):
        return [k for k in self.kids if k.tag == tag]


def letters(texts):
    """(bytes with letters for opaque parts, {letter: term}); quoted parts are put in quotes"""
    out, table = [], {}
    for t in texts:
        for p in (t.args if t.op == 'cat' else (t,)):
            if T.is_k(p) and isinstance(T.kval(p), (str, bytes)):
                v = T.kval(p)
                out.append(v if isinstance(v, bytes) else v.encode())
                continue
            while p.op == 'asbytes' or p.op == 'fmt' and p.args[1:] == ('', ''):
                p = p.args[0]
            c = chr(LETTER + len(table))
            table[c] = p
            out.append(('"%s"' % c if p.op == 'quoteattr' else c).encode())
    return b''.join(out), table


def parse(texts):
    """(root node, {letter: term}); raises Bad where the text is no well-formed document"""
    data, table = letters(texts)
    stack, roots = [], []

    def start(tag, att):
        n = Node(tag, att)
        (stack[-1].kids if stack else roots).append(n)
        stack.append(n)

    def end(tag):
        stack.pop()

    def chars(s):
        if stack:
            stack[-1].text += s
    p = expat.ParserCreate()
    p.ordered_attributes = False
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    try:
        p.Parse(data, True)
    except expat.ExpatError as e:
        lines = data.decode('utf-8', 'replace').split('\n')
        raise Bad('the document is not well-formed: %s: %s' % (e, lines[min(e.lineno, len(lines)) - 1].strip()[:80]))
    return roots[0], table


def value(s, table):
    """string constant, or the term an attribute consists of"""
    if not any(c in table for c in s):
        return s
    if len(s) == 1:
        t = table[s]
        if t.op in ('quoteattr', 'hescape'):
            return t.args[0]
        if t.op == 'sym' and t.args[-1] == 'str':
            raise Bad('%s is written without escaping' % t.args[0])
        if t.op == 'escape':
            raise Bad('%s is escaped, but quotes in it are not' % T.show(t.args[0], 2))
        raise Unsupported('text written: %s' % T.show(t, 3))
    raise Unsupported('text written: %s' % s)


def outline(n, table):
    """(tag, name, [children]) with arrays by name"""
    if n.tag == 'DataArray':
        if n.kids:
            raise Bad('elements inside DataArray')
        return ('DataArray', value(n.att.get('Name', '(none)'), table))
    return (n.tag, [outline(k, table) for k in n.kids])


def well_formed(doc):
    """the nesting any document must have, whatever failed"""
    tag, kids = doc
    if tag != 'VTKFile' or [k[0] for k in kids] != ['UnstructuredGrid']:
        raise Bad('the document is %s' % show(doc))
    for piece in kids[0][1]:
        if piece[0] != 'Piece':
            raise Bad('%s directly in the grid' % piece[0])
        for s in piece[1]:
            if s[0] not in ('Points', 'Cells', 'PointData', 'CellData'):
                raise Bad('%s directly in a piece' % s[0])
            for a in s[1]:
                if a[0] != 'DataArray':
                    raise Bad('%s in %s' % (a[0], s[0]))


def show(doc):
    if doc[0] == 'DataArray':
        return str(doc[1] if isinstance(doc[1], str) else T.show(doc[1], 2))
    return '%s(%s)' % (doc[0], ' '.join(show(k) for k in doc[1]))


class Pencil(object):
    """the document required, and the outcomes of the calls"""
    def __init__(self):
        self.grid = []
        self.piece = self.section = None

    def new_piece(self):
        self.piece = [('Points', [('DataArray', 'points')]),
                      ('Cells', [('DataArray', x) for x in ('connectivity', 'offsets', 'types')])]
        self.section = None
        self.grid.append(('Piece', self.piece))
        return 'done'

    def start(self, tag):
        if self.piece is None:
            return 'refused'
        self.section = []
        self.piece.append((tag, self.section))
        return 'done'

    def add(self, name):
        if self.section is None:
            return 'refused'
        self.section.append(('DataArray', name))
        return 'done'

    def doc(self):
        return ('VTKFile', [('UnstructuredGrid', self.grid)])


OPS = ('piece', 'points', 'cells', 'data', 'cellpoints', 'badpiece', 'baddata', 'badcellpoints')
CALLED = {'piece': 'new_piece', 'points': 'start_pointdata', 'cells': 'start_celldata', 'data': 'add_data',
          'cellpoints': 'add_data_cellpoints', 'badpiece': 'new_piece with an unknown element type',
          'baddata': 'add_data with an array of three dimensions', 'badcellpoints': 'add_data_cellpoints with an array of three dimensions'}


def check_C01(tier):
    rep = Report('C01', tier, TECH,
                 'for every sequence of calls the text written up to close() is the document required, elements properly nested and '
                 'closed, names escaped; calls out of order raise VtkError and write nothing',
                 ['names consist of characters XML can represent', 'points and cells given fit together'])
    try:
        d = Desk()
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep

    def names(k):
        return raw('sym', 'name %d' % k, 'str')

    def sequence(ops, name=names, const=False):
        d.fresh()
        steps, pen, want = [], Pencil(), []
        loose = False
        for k, op in enumerate(ops):
            pts = d.array('points', (4, 3))
            cells = seq('tuple', [d.array('con', (4,), 'int32'), d.ints([4]), d.ints([24 if op != 'badpiece' else 99])])
            arr = d.array('data', (4,)) if not op.startswith('bad') else d.array('block', (4, 2, 2))
            nm = name(k)
            if op in ('piece', 'badpiece'):
                steps.append(('new_piece', [pts, cells]))
            elif op in ('points', 'cells'):
                steps.append(('start_' + op[:-1] + 'data', []))
            else:
                steps.append(('add_data' if op in ('data', 'baddata') else 'add_data_cellpoints', [arr, nm]))
            if op == 'badpiece':
                loose = True
            x = T.kval(nm) if T.is_kstr(nm) else nm
            want.append({'piece': pen.new_piece, 'points': lambda: pen.start('PointData'), 'cells': lambda: pen.start('CellData'),
                         'data': lambda: pen.add(x), 'cellpoints': lambda: pen.add(x), 'badpiece': lambda: 'bad',
                         'baddata': lambda: 'bad', 'badcellpoints': lambda: 'bad'}[op]())
        calls = d.run(steps)
        texts = [t for c in calls for t in c[1]]
        doc = outline(*parse(texts))
        well_formed(doc)
        for (op, w, c) in zip(ops, want, calls[1:]):
            if w == 'bad':
                if c[0] == 'done':
                    raise Bad('%s is accepted' % CALLED[op])
                if op != 'badpiece' and c[1]:
                    raise Bad('%s fails, having written' % CALLED[op])
            elif not loose:
                if c[0] != w:
                    raise Bad('%s %s' % (CALLED[op], {'done': 'is accepted', 'refused': 'raises VtkError',
                                                      'failed': 'raises another error than VtkError' if w == 'refused'
                                                      else 'fails'}[c[0]]))
                if w == 'refused' and c[1]:
                    raise Bad('%s raises VtkError, having written' % CALLED[op])
            elif c[0] == 'failed':
                raise Bad('%s fails' % CALLED[op])
        if not loose and doc != pen.doc():
            raise Bad('the document is %s, should be %s' % (show(doc), show(pen.doc())))

    def group(item):
        unit, runs = item

        def do():
            for r in runs:
                ops, kw = r if r and isinstance(r[0], tuple) else (r, {})
                rep.tally('sequences of calls')
                try:
                    sequence(ops, **kw)
                except Bad as e:
                    rep.violation(unit, WHERE, '%s, close: %s' % (', '.join(CALLED[o] for o in ops) or 'nothing', e))
                    return
            rep.good(unit)
        rep.run(unit, do)
        rep.analysed.update(v for v in d.I.visited if v.startswith('freesif'))
    n = 5 if tier == 'quick' else 6
    runs = [()]
    for k in range(1, n):
        runs += list(itertools.product(OPS, repeat=k))
    good = [o for o in OPS if not o.startswith('bad')]
    runs += list(itertools.product(good, repeat=n))
    groups = {}
    for r in runs:
        u = ', '.join(r[:2]) + (' and %d more calls' % (len(r) - 2) if len(r) > 2 else '')
        groups.setdefault('calls: ' + (u or 'none'), []).append(r)
    items = sorted(groups.items())
    for x in NAMES:
        items.append(('name %r' % x, [(('piece', 'points', 'data', 'cells', 'cellpoints'), {'name': lambda k, x=x: K(x)})]))
    rep.parallel(group, items)
    return rep


# ---------------------------------------------------------------------------------------------------- arrays
class Grid(dense.Dense):
    """several leaves of declared shape"""
    def __init__(self, leaves):
        dense.Dense.__init__(self, None, 0)
        self.leaves = leaves

    def ev(self, t):
        s = self.leaves.get(t)
        if s is not None:
            n = 1
            for x in s:
                n *= x
            return dense.Arr(s, [{(t.args[0], i): 1.0} for i in range(n)])
        if t.op == 'memorder':
            raise Bad('the order of the values written depends on the memory layout of the array')
        return dense.Dense.ev(self, t)


def payload(node, table, leaves):
    """(byte count, flat list of values) of the content of a DataArray"""
    s = node.text.strip()
    if len(s) != 1 or s not in table:
        if any(table[c].op == 'tobytes' for c in s if c in table):
            raise Bad('the content is not encoded')
        if s == '':
            raise Bad('no content')
        if s and all(c in table and table[c].op == 'b64' for c in s):
            raise Bad('the content is not one base64 encoding')
        raise Unsupported('content of DataArray')
    t = table[s]
    if t.op != 'b64':
        if t.op == 'tobytes':
            raise Bad('the content is not encoded')
        raise Unsupported('content of DataArray: %s' % T.show(t, 3))
    parts = list(t.args[0].args) if t.args[0].op == 'cat' else [t.args[0]]
    if not parts or parts[0].op != 'pack':
        if parts and parts[0].op == 'tobytes':
            raise Bad('the content does not begin with the number of bytes')
        raise Unsupported('content of DataArray: %s' % T.show(t, 4))
    if parts[0].args[0] is not K('<Q'):
        raise Bad('the number of bytes is packed as %s' % T.show(parts[0].args[0], 2))
    n = parts[0].args[1]
    if not T.is_kint(n):
        raise Unsupported('number of bytes: %s' % T.show(n, 3))
    if len(parts) != 2 or parts[1].op != 'tobytes':
        if len(parts) == 1:
            return T.kval(n), [], None
        raise Unsupported('content of DataArray: %s' % T.show(t, 4))
    x, order = parts[1].args
    try:
        a = Grid(leaves)(x)
    except dense.Mismatch as e:
        raise Bad('the array written cannot be formed: %s' % e)
    if order in (K('A'), K('K')):
        raise Bad('the order of the values written depends on the memory layout of the array')
    if order is K('F'):
        a = dense.transpose(a, list(range(len(a.shape)))[::-1])
    elif order is not K('C'):
        raise Unsupported('order of bytes')
    return T.kval(n), a.data, x


def same_array(node, table, leaves, name, shape, dtype, data, comps, d, ints=None):
    """the DataArray holds data (list of forms) of that shape and dtype"""
    att = {k: value(v, table) for k, v in node.att.items()}
    if att.get('Name') != name:
        raise Bad('Name is %s, should be %s' % (att.get('Name'), name))
    got = att.get('type')
    if ints and got in ints:            # indices may be written as other integers
        dtype = ints[got]
    if got != DT[dtype]:
        raise Bad('%s array is declared as %s' % (dtype, got))
    n = shape[1] if len(shape) == 2 else 1
    if att.get('NumberOfComponents', '1') != str(n):
        raise Bad('NumberOfComponents is %s for an array of shape %s' % (att.get('NumberOfComponents'), shape))
    if att.get('format') != 'binary':
        raise Bad('format is %s' % att.get('format'))
    cn = {k: v for k, v in att.items() if k.startswith('ComponentName')}
    want = {'ComponentName%d' % i: c for i, c in enumerate(comps)}
    if cn != want:
        raise Bad('component names are %s, should be %s' % (cn, want))
    count, vals, x = payload(node, table, leaves)
    size = 1
    for s in shape:
        size *= s
    if count != size * itemsize(dtype):
        raise Bad('%d bytes are announced for %d values of %s' % (count, size, dtype))
    if x is not None:
        dd = d.declared(x)
        if dd is None:
            if x.op not in ('array', 'vec', 'vecmap'):
                raise Unsupported('dtype of %s' % T.show(x, 3))
        elif dd[1] != dtype:
            raise Bad('the values are written as %s' % dd[1])
    for k, (g, w) in enumerate(itertools.zip_longest(vals, data)):
        if g != w:
            raise Bad('value %d written is %s, should be %s' % (k, form(g), form(w)))


def form(f):
    if f is None:
        return 'missing'
    return ' + '.join('%g' % v if k is None else '%s%s[%d]' % ('' if v == 1 else '%g ' % v, k[0], k[1])
                      for k, v in sorted(f.items(), key=str)) or '0'


def flat(name, n, perm=None):
    return [{(name, i if perm is None else perm[i]): 1.0} for i in range(n)]


def consts(xs):
    return [{None: float(x)} if x else {} for x in xs]


def header(root):
    if root.tag != 'VTKFile' or root.att.get('type') != 'UnstructuredGrid':
        raise Bad('the document is not declared as UnstructuredGrid')
    if root.att.get('byte_order') != 'LittleEndian':
        raise Bad('byte_order is %s' % root.att.get('byte_order'))
    if root.att.get('header_type') != 'UInt64':
        raise Bad('header_type is %s' % root.att.get('header_type'))


def check_C02(tier):
    rep = Report('C02', tier, TECH,
                 'each DataArray declares dtype, components and names of the array and holds the base64 encoding of the byte count and '
                 'the bytes in C order; arrays of other than one or two dimensions are refused',
                 ['arrays are little-endian', 'dtypes outside the ten VTK knows are not judged'])
    try:
        d = Desk()
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    shapes = [(5,), (1,), (0,), (4, 1), (1, 4), (2, 3), (3, 2), (5, 6), (0, 3), (7, 9)]
    compnames = {'without component names': None, 'with no component names': [], 'with component names': ['X', 'Y', 'Z']}

    def one(method, section, shape, dtype, comps, how):
        d.fresh()
        pts = d.array('points', (4, 3))
        cells = seq('tuple', [d.array('con', (4,), 'int32'), d.ints([4]), d.ints([24])])
        arr = d.array('data', shape, dtype)
        name = raw('sym', 'name', 'str')
        a = [arr, name]
        if comps is not None:
            cs = [K(c) if c != 'Y' else raw('sym', 'second component', 'str') for c in comps]
            a.append(seq('tuple', cs) if how == 'tuple' else d.I.new_ref('list', seq('list', cs)))
        calls = d.run([('new_piece', [pts, cells]), (section, []), (method, a)])
        c = calls[3]
        if len(shape) not in (1, 2):
            if c[0] == 'done' or c[1]:
                raise Bad('an array of %d dimensions is written' % len(shape))
            return
        if c[0] != 'done':
            raise Bad('array of shape %s is refused' % (shape,))
        root, table = parse([t for q in calls for t in q[1]])
        header(root)
        nodes = root.kids[0].kids[-1].kids[-1].kids
        if len(nodes) != 1:
            raise Bad('%d arrays are written' % len(nodes))
        n = 1
        for s in shape:
            n *= s
        same_array(nodes[0], table, {arr_t(arr): shape}, name, shape, dtype, flat('data', n),
                    [T.kval(x) if T.is_k(x) else x for x in (cs if comps is not None else [])], d)

    def arr_t(b):
        return raw('sym', 'data', 'arr')
    items = []
    for m in ('add_data', 'add_data_cellpoints'):
        sh = shapes if m == 'add_data' else [s for s in shapes if s[0] >= 4]
        for dt in DT:
            items.append(('%s of %s' % (m, dt), [(m, 'start_pointdata', s, dt, None, None) for s in sh]))
        for text, c in sorted(compnames.items()):
            items.append(('%s %s' % (m, text), [(m, sec, s, 'float64', c, how) for sec in ('start_pointdata', 'start_celldata')
                                                for s in sh if len(s) == 2 for how in ('tuple', 'list')]))
        for s in ((), (4, 1, 1), (4, 2, 3), (4, 2, 2, 2)):
            items.append(('%s of %d dimensions %s' % (m, len(s), s), [(m, 'start_pointdata', s, dt, None, None) for dt in
                                                                      ('float64', 'int32', 'uint8')]))

    def group(item):
        unit, runs = item

        def do():
            for r in runs:
                rep.tally('arrays')
                try:
                    one(*r)
                except Bad as e:
                    rep.violation(unit, WHERE + '._write_array', '%s %s: %s' % (r[3], r[2], e))
                    return
            rep.good(unit)
        rep.run(unit, do)
        rep.analysed.update(v for v in d.I.visited if v.startswith('freesif'))
    rep.parallel(group, items)
    return rep


# ---------------------------------------------------------------------------------------------------- cells
def check_C03(tier):
    rep = Report('C03', tier, TECH,
                 'each piece declares its numbers of points and cells and holds points, connectivity in VTK order per element, offsets '
                 'and VTK types; element node results follow the VTK order of their elements',
                 ['meshes: every sequence of up to %d elements of the six types VTK knows, one and two pieces' % (4 if tier == 'quick' else 5)])
    try:
        d = Desk()
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep

    def mesh(k, types):
        off, n = [], 0
        for t in types:
            n += NODES[t]
            off.append(n)
        return {'k': k, 'types': types, 'off': off, 'n': n, 'np': 3 + n + k}

    def perm(types, table):
        out, start = [], 0
        for t in types:
            p = table.get(t) or range(NODES[t])
            out += [start + x for x in p]
            start += NODES[t]
        return out

    def one(meshes):
        d.fresh()
        steps = []
        leaves = {}

        def arr(name, shape, dt='float64'):
            leaves[raw('sym', name, 'arr')] = shape
            return d.array(name, shape, dt)
        results = []
        for j, m in enumerate(meshes):
            k = m['k']
            if j and m is meshes[j - 1]:
                steps += steps[-6:]
                continue
            steps.append(('new_piece', [arr('points%d' % k, (m['np'], 3)), seq('tuple', [
                arr('con%d' % k, (m['n'],), 'int32'), d.ints(m['off']), d.ints(m['types'])])]))
            steps.append(('start_pointdata', []))
            box = arr('res%d' % k, (m['n'],))
            two = arr('comp%d' % k, (m['n'], 2), 'float32')
            nod = arr('nod%d' % k, (m['np'], 2), 'float32')
            steps += [('add_data_cellpoints', [box, K('res')]), ('add_data_cellpoints', [two, K('comp')]),
                      ('add_data', [nod, K('nod')]), ('add_data_cellpoints', [box, K('again')])]
        calls = d.run(steps)
        for (op, _), c in zip(steps, calls[1:]):
            if c[0] != 'done':
                raise Bad('%s fails' % op)
        root, table = parse([t for q in calls for t in q[1]])
        pieces = root.kids[0].kids
        if len(pieces) != len(meshes):
            raise Bad('%d pieces for %d meshes' % (len(pieces), len(meshes)))
        for m, p in zip(meshes, pieces):
            k, types = m['k'], m['types']
            for a, n in (('NumberOfPoints', m['np']), ('NumberOfCells', len(types))):
                v = value(p.att.get(a, ''), table)
                if v != str(n):
                    raise Bad('%s is %s, should be %d' % (a, v, n))
            tab = {}
            for s in p.kids:
                for a in s.kids:
                    tab[(s.tag, a.att.get('Name'))] = a

            def want(sec, name, shape, dt, data, what, ints=None):
                if (sec, name) not in tab:
                    raise Bad('no %s' % name)
                try:
                    same_array(tab[(sec, name)], table, leaves, name, shape, dt, data, [], d, ints)
                except Bad as e:
                    raise Bad('%s: %s' % (what, e))
            con = perm(types, CON)
            res = perm(types, RES)
            want('Points', 'points', (m['np'], 3), 'float64', flat('points%d' % k, 3 * m['np']), 'points')
            want('Cells', 'connectivity', (m['n'],), 'int32', flat('con%d' % k, m['n'], con), 'connectivity', WIDE)
            want('Cells', 'offsets', (len(types),), 'int64', consts(m['off']), 'offsets', WIDE)
            want('Cells', 'types', (len(types),), 'int64', consts(VTK[t] for t in types), 'types', TINY)
            for nm, what in (('res', 'element node results'), ('again', 'element node results written again')):
                want('PointData', nm, (m['n'],), 'float64', flat('res%d' % k, m['n'], res), what)
            want('PointData', 'comp', (m['n'], 2), 'float32',
                 flat('comp%d' % k, 2 * m['n'], [2 * r + c for r in res for c in (0, 1)]), 'element node results of two components')
            want('PointData', 'nod', (m['np'], 2), 'float32', flat('nod%d' % k, 2 * m['np']), 'node results')

    def group(item):
        unit, runs = item

        def do():
            for r in runs:
                rep.tally('meshes')
                try:
                    one([mesh(k, list(t)) for k, t in enumerate(r)] if r[0] != 'twice' else [mesh(0, list(r[1]))] * 2)
                except Bad as e:
                    rep.violation(unit, 'freesif/utils/writers.py: VtuWriter.new_piece, VtuWriter.add_data_cellpoints',
                                  'elements of types %s: %s' % (' then '.join(t if t == 'twice' else ','.join(map(str, t)) or 'none' for t in r), e))
                    return
            rep.good(unit)
        rep.run(unit, do)
        rep.analysed.update(v for v in d.I.visited if v.startswith('freesif'))
    el = sorted(VTK)
    items = [('no elements', [((),), ((), (24,)), ((26, 28), ())])]
    for t in el:
        items.append(('elements %d' % t, [((t,),)]))
    for k in range(2, 5 if tier == 'quick' else 6):
        for first in itertools.product(el, repeat=2):
            items.append(('elements %d, %d%s' % (first + (' and %d more' % (k - 2) if k > 2 else '',)),
                          [(first + r,) for r in itertools.product(el, repeat=k - 2)]))
    for a in el:
        items.append(('pieces of elements %d and others' % a, [((a,), (b,)) for b in el] + [((a, b), (b, b, a)) for b in el]))
    for a in el:
        items.append(('elements %d and others written twice' % a, [('twice', (a, b)) for b in el]))
    rep.parallel(group, items)
    return rep
