"""Checks of the readers of sequential files (properties A03, A04 and the writer, C06)."""
import itertools
import os
import sys

from . import terms as T
from . import txt
from .terms import K, NONE, TRUE, FALSE, raw, seq, Unsupported, as_parts
from .interp import Interp, py, Prim, EV
from .check import Report, HERE, REPO

S = 'freesif.sequentialparser.sequentialfiles'
WHERE = 'freesif/sequentialparser/sequentialfiles.py: '
TECH = ('static value-flow analysis: the reader classes are interpreted abstractly over files of known layout with '
        'symbolic numbers and texts (abstract domain: strings as sequences of constant and opaque fields); results of '
        'every call compared as value numbers with the fields of the file')
SYM = 'symbolic number'


def sym(what):
    return raw('sym', what, 'num')


class Rec(object):
    """one record of a file: name, four fields, continuation lines of (blank lead?, numbers) or texts"""
    def __init__(self, name, head, lines=(), text=False):
        self.name, self.head, self.lines, self.text = name, list(head), list(lines), text

    def header(self):
        return seq('tuple', [K(self.name), seq('tuple', self.head)])


def rec(r, name, lengths=(), first=None, text=0, blanktext=False, head=None):
    """record number r with continuation lines of the given lengths, or with text lines"""
    v = [sym('field %d of record %d' % (k, r)) for k in range(4)]
    for k, x in (head or {}).items():
        v[k] = K(x)
    if first is not None:
        v[0] = K(first)
    if text:
        lines = []
        for k in range(text):
            lines.append((blanktext, raw('sym', 'text %d of record %d' % (k, r), 'str')))
        return Rec(name, v, lines, True)
    lines, k = [], 4
    for n in lengths:
        lines.append([sym('field %d of record %d' % (j, r)) for j in range(k, k + n)])
        k += n
    return Rec(name, v, lines)


class Encoded(object):
    def __init__(self, kind, parts, ends):
        self.kind = kind
        self.content = txt.mk(kind, parts)
        self.parts = parts
        self.ends = ends

    def spelled(self):
        """the same file with a definite text in its text lines; None: there are none"""
        texts = [p for p in self.parts if p.op == 'piece' and p.args[-1] == 'text']
        if not texts:
            return None
        some = 'Deck plate 12 mm, aft of frame 7'
        some = K('%-64s' % some if self.kind == 'str' else ('%-64s' % some).encode())
        return Encoded(self.kind, [some if p in texts else p for p in self.parts], self.ends)


def formatted(recs):
    parts, ends, pos = [], [], 0

    def put(*ps):
        nonlocal pos
        for p in ps + (K('\n'),):
            parts.append(p)
            pos += txt.width(p)
        ends.append(pos)
    for r in recs:
        put(K('%-8s' % r.name), *[txt.piece(16, v) for v in r.head])
        for l in r.lines:
            if r.text:
                put(*([K(' ' * 8)] if l[0] else []), txt.piece(64, l[1], 'text'))
            else:
                put(K(' ' * 8), *[txt.piece(16, v) for v in l])
    return Encoded('str', parts, ends)


def unformatted(recs, blank, full=128):
    """blank: continuation lines start with blanks (input records)"""
    parts = [K(b'K')]

    def put(*ps):
        n = sum(txt.width(p) for p in ps)
        n = full if n == 128 else n
        parts.extend((K(bytes([n])),) + ps + (K(bytes([n])),))
    for r in recs:
        put(K(('%-8s' % r.name).encode()), *[txt.piece(4, v) for v in r.head])
        for l in r.lines:
            if r.text:
                put(*([K(b' ' * 8)] if l[0] else []), txt.piece(64, l[1], 'text'))
            else:
                put(*([K(b' ' * 8)] if blank else []), *[txt.piece(4, v) for v in l])
    return Encoded('bytes', parts, [])


class Files(object):
    def __init__(self):
        self.I = I = Interp(REPO)
        if I.load(S) is None:
            raise Unsupported('module %s has vanished' % S)
        I.load_text('drive', os.path.join(HERE, 'spec', 'drive_files.py'))
        I.unroll = 600
        self.modes = []
        I.hooks['open'] = self.open
        self.current = None

        def emit(args, kw):
            I.emit(T.kval(args[0]), *[I.D(a) for a in args[1:]])
            return NONE
        I.st[('g', 'drive', 'emit')] = py(Prim('emit', emit))

    def open(self, args, kw):
        I = self.I
        c = I.func('drive', 'Stream')
        mode = args[1] if len(args) > 1 else kw.get('mode', K('r'))
        binary = T.is_k(mode) and 'b' in T.kval(mode)
        if binary != (self.current.kind == 'bytes'):
            raise Unsupported('the file is opened in another mode')
        return I.instantiate(c.args[0], c, [self.current.content, seq('tuple', [K(e) for e in self.current.ends])], {})

    def session(self, cls, enc, steps):
        """[result] of the calls; the last may be ('raises', name)"""
        I = self.I
        self.current = enc
        a = seq('tuple', [seq('tuple', [K(op), seq('tuple', [K(x) for x in args])]) for op, args in steps])
        exits = I.run(I.func('drive', 'session'), [I.func(S, cls), a])
        if len(exits) != 1:
            raise Unsupported('outcome of a call is not determined')
        e = exits[0]
        ev = e.st[EV]
        if ev.op != 'seq':
            raise Unsupported('outcome of a call is not determined')
        out = [p.args[1] for p in ev.args[1:] if p.op == 'result']
        if e.kind == 'raise':
            out.append(raw('raises', K(I.exc_name(e.val) or '?')))
        return out


UNDECIDABLE = ('call', 'stripped', 'ite', 'opq', 'attr', 'meth', 'unset', 'float')


def differs(got, want):
    """None: equal; text: certainly different; Unsupported: cannot tell"""
    if got is want:
        return None
    if got.op == 'raises' or want.op == 'raises':
        return 'is %s, should be %s' % (T.show(got, 6), T.show(want, 6))
    if got.op == 'seq' and want.op == 'seq':
        a, b = T.seq_fixed(got), T.seq_fixed(want)
        if a is not None and b is not None:
            if len(a) != len(b):
                return 'is %s, should be %s' % (T.show(got, 6), T.show(want, 6))
            for x, y in zip(a, b):
                d = differs(x, y)
                if d:
                    return d
            return None
    for x in T.subterms(got):
        if x.op == 'stripped' and txt.numeric(x.args[0]) and T.is_k(want):
            continue
        if x.op in UNDECIDABLE:
            raise Unsupported('value %s' % T.show(got, 5))
    return 'is %s, should be %s' % (T.show(got, 6), T.show(want, 6))


CLASSES = {'formatted': 'FormattedFile', 'unformatted': 'UnformattedFile'}


def calls_text(steps):
    out = []
    for op, args in steps:
        out.append('%s(%s)' % (op if op != 'skip' else 'skip_restofrecord', ', '.join(map(repr, args))))
    return ', '.join(out)


class Run(object):
    """obligations made of many scenarios"""
    def __init__(self, rep):
        self.rep = rep
        self.F = Files()
        self.scenarios = 0

    def obligation(self, unit, where, scenarios):
        """scenarios: iterable of (description, class, encoded file, steps, wanted results)"""
        def go():
            bad = None
            for what, cls, enc, steps, want in scenarios:
                self.scenarios += 1
                try:
                    bad = self.judge(what, cls, enc, steps, want)
                except Unsupported:
                    e = enc.spelled()
                    bad = e and self.judge(what, cls, e, steps, want)
                    if not bad:
                        raise
                if bad:
                    break
            if bad:
                self.rep.violation(unit, WHERE + where, bad)
            else:
                self.rep.good(unit)
        self.rep.run(unit, go)

    def judge(self, what, cls, enc, steps, want):
        try:
            got = self.F.session(cls, enc, steps)
        except txt.Desync as e:
            return '%s; calls %s: the reader loses its position: %s' % (what, calls_text(steps), e)
        for k, w in enumerate(want):
            g = got[k] if k < len(got) else raw('raises', K('nothing'))
            if w is None:
                continue
            d = differs(g, w)
            if d:
                return '%s; calls %s: result of the last %s' % (what, calls_text(steps[:k + 1]), d)
        return None


def floats(r, a, b):
    """fields a..b-1 of record r"""
    vals = list(r.head)
    for l in r.lines:
        vals += l
    return seq('tuple', vals[a:b])


def histories(layout, top, depth):
    """sequences of numbers of fields to read which stay within the record"""
    total = sum(layout)
    for k in range(0, depth + 1):
        for ns in itertools.product(range(0, top + 1), repeat=k):
            if sum(ns) <= total and all(ns[:-1]):
                yield ns
            elif sum(ns) <= total and ns.count(0) == 1 and k > 1:
                yield ns


def consumed(layout, n):
    """number of lines read to get n numbers, numbers left over"""
    got = k = 0
    while got < n:
        got += layout[k]
        k += 1
    return k, got - n


ENC = {'formatted': ('FormattedFile', lambda rs: formatted(rs), 0),
       'unformatted, blank lead': ('UnformattedFile', lambda rs: unformatted(rs, True), 8),
       'unformatted': ('UnformattedFile', lambda rs: unformatted(rs, False), 0)}


def read_scenarios(enc, layouts, top, depth):
    cls, encode, skip = ENC[enc]
    for layout in layouts:
        a = rec(0, 'GBEAMG', layout)
        b = rec(1, 'GNODE', [4, 4] if enc == 'formatted' else [4])
        c = rec(2, 'IEND')
        f = encode([a, b, c])
        for ns in histories(layout, top, depth):
            steps, want = [('read_headerrec', ())], [a.header()]
            pos = 4
            for n in ns:
                steps.append(('read_floats', (n, skip)))
                want.append(floats(a, pos, pos + n))
                pos += n
                k, rest = consumed(layout, pos - 4)
                steps.append(('at_headerrec', ()))
                want.append(TRUE if k == len(layout) and not rest else FALSE)
            k, rest = consumed(layout, sum(ns))
            if k == len(layout):
                steps += [('read_headerrec', ()), ('at_headerrec', ()), ('read_floats', (3, skip)), ('read_floats', (1, skip))]
                want += [b.header(), FALSE, floats(b, 4, 7), floats(b, 7, 8)]
            yield 'continuation lines of %s numbers' % (layout,), cls, f, steps, want


def text_scenarios(enc, lead):
    cls, encode, skip = ENC[enc]
    kind = 'str' if enc == 'formatted' else 'bytes'
    a = rec(0, 'GBEAMG', [4])
    b = rec(1, 'TEXT', text=2, blanktext=lead)
    c = rec(2, 'GNODE', [4])
    d = rec(3, 'IEND')
    f = encode([a, b, c, d])

    def line(k):
        lead_, t = b.lines[k]
        p = txt.piece(64, t, 'text')
        return txt.mk(kind, ([K(' ' * 8 if kind == 'str' else b' ' * 8)] if lead_ else []) + [p])
    steps = [('read_headerrec', ()), ('read_floats', (1, skip)), ('read_headerrec', ()), ('read_stringrec', ()),
             ('read_stringrec', ()), ('at_headerrec', ()), ('read_headerrec', ()), ('read_floats', (2, skip)),
             ('read_floats', (2, skip)), ('read_headerrec', ())]
    want = [a.header(), floats(a, 4, 5), b.header(), line(0), line(1), TRUE, c.header(), floats(c, 4, 6),
            floats(c, 6, 8), d.header()]
    yield 'text lines', cls, f, steps, want
    # a string record drops numbers left over
    g = encode([rec(0, 'GBEAMG', [4, 4]), c])
    e = rec(0, 'GBEAMG', [4, 4])
    yield 'text lines', cls, g, [('read_headerrec', ()), ('read_floats', (1, skip)), ('read_stringrec', ()),
                                 ('read_headerrec', ()), ('read_floats', (1, skip))], \
        [e.header(), floats(e, 4, 5), None, c.header(), floats(c, 4, 5)]


def floatrec_scenarios(enc, layouts):
    cls, encode, skip = ENC[enc]
    for layout in layouts:
        a = rec(0, 'BEMASS1', layout)
        b = rec(1, 'GNODE')
        f = encode([a, b])
        steps, want, pos = [('read_headerrec', ())], [a.header()], 4
        for n in layout:
            steps.append(('read_floatrec', (skip,)))
            want.append(floats(a, pos, pos + n))
            pos += n
        steps.append(('read_headerrec', ()))
        want.append(b.header())
        yield 'continuation lines of %s numbers' % (layout,), cls, f, steps, want


def check_A04(tier):
    rep = Report('A04', tier, TECH,
                 'read_floats(n) returns the next n numbers of the record for every layout of continuation lines and every '
                 'sequence of calls; numbers left over never reach a later record; header, string and float records '
                 'return exactly their line; at_headerrec tells whether a header follows',
                 ['fields of numbers never spell a record name or blanks'])
    run = Run(rep)
    four = [[], [4], [4, 1], [3], [4, 4], [4, 4, 2], [4, 4, 4]]
    wide = [[], [1], [2], [5], [7], [3, 4], [2, 1, 3], [9], [5, 5]]
    depth = 4 if tier == 'thorough' else 3
    top = 9 if tier == 'thorough' else 6
    for enc, layouts in (('formatted', four), ('unformatted, blank lead', four), ('unformatted', wide)):
        for l in layouts:
            run.obligation('read_floats %s %s' % (enc, l), '%s.read_floats' % ENC[enc][0],
                           read_scenarios(enc, [l], top, depth))
    for n in ((32,), (32, 32), (32, 5), (31, 2)):
        a = rec(0, 'RVSTRESS', n)
        b = rec(1, 'RVSTRESS', (3,))
        for full in (128, 129):
            f = unformatted([a, b], False, full)
            sc = []
            for ns in ((sum(n),), (1, sum(n) - 1), (30, sum(n) - 30), (sum(n) - 1, 1)):
                steps, want, pos = [('read_headerrec', ())], [a.header()], 4
                for k in ns:
                    steps.append(('read_floats', (k,)))
                    want.append(floats(a, pos, pos + k))
                    pos += k
                steps += [('read_headerrec', ()), ('read_floats', (3,))]
                want += [b.header(), floats(b, 4, 7)]
                sc.append(('continuation lines of %s numbers' % (n,), 'UnformattedFile', f, steps, want))
            run.obligation('long lines %s, length byte %d' % (n, full), 'UnformattedFile.read_stringrec', sc)
    for enc in ENC:
        run.obligation('text lines %s' % enc, '%s.read_stringrec' % ENC[enc][0],
                       itertools.chain(text_scenarios(enc, True), text_scenarios(enc, False)))
        run.obligation('read_floatrec %s' % enc, '%s.read_floatrec' % ENC[enc][0],
                       floatrec_scenarios(enc, four if enc != 'unformatted' else wide))
    rep.extra['call histories analysed'] = run.scenarios
    rep.analysed |= {v for v in run.F.I.visited if v.startswith('freesif')}
    return rep


# ------------------------------------------------------------------ A03
def skip_scenarios(enc, a, nexts, full=128):
    """record a (continuation lines included) is skipped whatever record follows"""
    cls, encode, skip = ENC[enc]
    for name in nexts:
        b = rec(1, name, [] if name == 'IEND' else [3])
        c = rec(2, 'IEND')
        recs = [a, b] + ([c] if name != 'IEND' else [])
        f = encode(recs)
        steps, want = [('read_headerrec', ()), ('skip', ())], [a.header(), b.header()]
        if name != 'IEND':
            steps += [('at_headerrec', ()), ('read_floats', (3, skip)), ('read_headerrec', ())]
            want += [FALSE, floats(b, 4, 7), c.header()]
        yield 'record %s with %s followed by %s' % (
            a.name, '%d text lines' % len(a.lines) if a.text else 'lines of %s numbers' % [len(l) for l in a.lines],
            name), cls, f, steps, want


def skips(run, names, tier):
    nexts = ['GNODE', 'BEMASS1', 'RVSTRESS', 'TDMATER', 'IEND']
    odd = ['XYZ', 'ABCDEFGH']
    for enc in ENC:
        text = enc == 'formatted'
        follow = nexts + (odd if text else [])
        w = 'SequentialFile.skip_restofrecord (%s)' % ENC[enc][0]

        def input_records():
            for name in ('BEMASS1', 'GNODE', 'XYZ'):
                for lines in ([], [4], [1], [4, 4], [4, 4, 3], [4] * 9):
                    for first in (0.0, 1.0, 3.0, 4.0, 5.0, 9.0, 40.0):
                        a = rec(0, name, lines, first)
                        fl = list(follow)
                        if first == 4.0 and not lines:
                            fl = nexts + odd
                        yield from skip_scenarios(enc, a, fl)
        if enc != 'unformatted':
            run.obligation('skip input records, %s' % enc, w, input_records())

        def result_records():
            for name in ('RVNODACC', 'W1EXFORC', 'GSETMEMB', 'XYZ'):
                for lines in ([], [1], [4], [5], [3, 4], [32], [32, 1], [32, 32, 7], [2, 2, 2]) if not text else \
                        ([], [1], [4], [4, 1], [4, 4], [4, 4, 4, 2]):
                    n = 4 + sum(lines)
                    a = rec(0, name, lines, float(n))
                    yield from skip_scenarios(enc, a, follow)
        if enc != 'unformatted, blank lead':
            run.obligation('skip records with a field count, %s' % enc, w, result_records())

        def text_records(name):
            few = name not in ('TDSETNAM', 'TSLAYER') and tier == 'quick'
            for n, m in ((1, 2),) if few else ((0, 0), (1, 0), (0, 1), (1, 2), (3, 1)):
                for lead in (True, False):
                    for extra in (8,) if few else (0, 8, 64):
                        a = rec(0, name, text=n + m, blanktext=lead, first=4.0, head={2: 100.0 * n + (extra if n else 0),
                                                                                     3: 100.0 * m + (extra if m else 0)})
                        yield from skip_scenarios(enc, a, ['GNODE', 'TDMATER', 'IEND'] + (odd if text else []))
        for name in sorted(n for n in names if n[:2] == 'TD' or n == 'TSLAYER'):
            run.obligation('skip text record %s, %s' % (name, enc), w, text_records(name))

        def text_blocks():
            for name in ('DATE', 'TEXT'):
                for n in (1, 2, 4):
                    a = rec(0, name, text=n, blanktext=True, first=1.0, head={2: float(n), 3: 72.0})
                    yield from skip_scenarios(enc, a, follow)
        run.obligation('skip DATE and TEXT, %s' % enc, w, text_blocks())

        def negatives():
            for name in ('GNODE', 'RVSTRESS', 'BEMASS1', 'TDMATER', 'XYZ'):
                for first in (-1.0, -2.0, -4.0, -6.0):
                    yield from skip_scenarios(enc, rec(0, name, [], first), nexts + odd)
                for n in (1, 3, 4):
                    yield from skip_scenarios(enc, rec(0, name, [n], -5.0), nexts + odd)
        run.obligation('skip records with a negative first field, %s' % enc, w, negatives())


def names_known(run, names):
    """every record type is recognised as a header"""
    for enc in ENC:
        cls, encode, skip = ENC[enc]
        for name in names:
            def sc():
                a = rec(0, 'GBEAMG', [4])
                b = rec(1, name)
                c = rec(2, 'IEND')
                f = encode([a, b, c])
                yield 'record GBEAMG followed by ' + name, cls, f, \
                    [('read_headerrec', ()), ('read_floats', (4, skip)), ('at_headerrec', ()), ('read_headerrec', ())], \
                    [a.header(), floats(a, 4, 8), TRUE, b.header()]
                a = rec(0, 'BEMASS1', first=9.0)
                f = encode([a, b, c])
                yield 'record BEMASS1 without continuation lines followed by ' + name, cls, f, \
                    [('read_headerrec', ()), ('skip', ()), ('read_headerrec', ())], [a.header(), b.header(), c.header()]
            run.obligation('header %s, %s' % (name, enc), 'allowed_record_names, %s' % cls, sc())


P = 'freesif.sequentialparser.parsers'


class Dispatch(object):
    def __init__(self):
        self.I = I = Interp(REPO)
        if I.load(P) is None:
            raise Unsupported('module %s has vanished' % P)
        I.load_text('drive', os.path.join(HERE, 'spec', 'drive_dispatch.py'))
        I.unroll = 200

        def emit(args, kw):
            I.emit(T.kval(args[0]), *[I.D(a) for a in args[1:]])
            return NONE
        g = lambda n, v, m='drive': I.st.__setitem__(('g', m, n), v)      # noqa: E731
        g('emit', py(Prim('emit', emit)))
        g('parse_file', I.func(P, 'parse_file'))
        r = I.func(P, 'readers')
        d = I.content(r)
        items = I.model.dict_fixed(d)
        if items is None:
            raise Unsupported('readers is not a table of constants')
        self.names = [T.kval(k) for k, v in items]
        for n in self.names:
            if n != 'IEND':
                I.setitem(r, K(n), I.func('drive', 'reader'))
        g('get_path', py(Prim('get_path', lambda a, kw: raw('sym', 'group', 'str'))), P)
        self.base = dict(I.st)

    def run(self, stream, only):
        """[(kind, args)] of the events of parse_file"""
        I = self.I
        I.st = dict(self.base)
        I.st[('g', P, 'filetypeid')] = K('T')
        recs = seq('tuple', [seq('tuple', [K(n), seq('tuple', [K(x) for x in r])]) for n, r in stream])
        out = raw('sym', 'out_file')
        if only is None:
            ex = I.run(I.func('drive', 'parse_default'), [recs, out])
        else:
            lst = I.new_list([K(x) for x in only]) if isinstance(only, list) else seq('tuple', [K(x) for x in only])
            ex = I.run(I.func('drive', 'parse'), [recs, out, lst])
        ex = [e for e in ex if not (e.kind == 'raise' and str(I.exc_name(e.val)).startswith('tables.'))]
        if len(ex) != 1:
            raise Unsupported('outcome of parse_file is not determined')
        e = ex[0]
        if e.kind == 'raise':
            return [('raises', (I.exc_name(e.val),))]
        ev = e.st[EV]
        if ev.op != 'seq':
            raise Unsupported('outcome of parse_file is not determined')
        return [(p.op, p.args) for p in ev.args[1:] if p.op in ('read', 'skip', 'line', 'numbers', 'end of data')]


def judge_stream(stream, only, readers, events):
    """text of the first record that is not treated as it should"""
    if events and events[0][0] == 'raises':
        return 'raises %s' % events[0][1][0]
    done = {}
    for op, args in events:
        if op == 'end of data':
            return 'reads beyond the last record'
        done.setdefault(int(T.kval(args[0])), []).append((op,) + tuple(args[1:]))
    for k, (name, r) in enumerate(stream):
        ev = done.pop(k, [])
        what = 'record %d (%s)' % (k + 1, name)
        ops = [e[0] for e in ev]
        mine = K(name), seq('tuple', [K(x) for x in r])
        if name == 'IEND':
            if r[0] == 0.:
                if ev:
                    return '%s: %s' % (what, ops)
                break
            if [o for o in ops if o != 'skip'] or len(ops) > 1:
                return '%s: %s' % (what, ops)
            continue
        store = name in readers and (not only or name in only) and r[0] >= 0
        if store:
            if ops != ['read']:
                return '%s is not handed to its reader' % what if 'read' not in ops else '%s: %s' % (what, ops)
        elif 'read' in ops:
            return '%s is handed to a reader%s' % (what, ' in spite of its negative first field' if r[0] < 0 else '')
        elif ops == ['skip']:
            pass
        elif r[0] < 0 and ops == (['line'] if r[0] == -5. else []):
            pass
        else:
            return '%s is not skipped as a whole: %s' % (what, ops)
        if ops in (['read'], ['skip']) and ev[0][1:] != mine:
            return '%s: called with %s' % (what, ', '.join(T.show(x, 4) for x in ev[0][1:]))
    if done:
        return 'reads on after IEND'
    return None


def dispatch(rep, tier):
    d = Dispatch()
    alphabet = [('GNODE', (1., 2., 3., 4.)), ('GCOORD', (0., 1., 1., 1.)), ('BEMASS1', (1., 0., 0., 0.)),
                ('XYZ', (7., 1., 1., 1.)), ('GSETMEMB', (-1., 2., 3., 4.)), ('GELTH', (-5., 1., 0., 0.)),
                ('BNDOF', (-5., 1., 0., 0.)), ('IEND', (1., 0., 0., 0.)), ('TDMATER', (4., 1., 0., 0.))]
    end = [('IEND', (0., 0., 0., 0.)), ('GNODE', (9., 9., 9., 9.)), ('IEND', (0., 0., 0., 0.))]
    onlys = [None, [], ['GNODE'], ('GNODE', 'GELTH'), ['BEMASS1', 'GCOORD', 'IEND', 'TDMATER']]
    depth = 4 if tier == 'thorough' else 3
    count = 0
    streams = []
    for n in range(0, depth + 1):
        for s in itertools.product(alphabet, repeat=n):
            streams.append(list(s) + end)
    # the reader of every type
    singles = [[(n, (1., 2., 3., 4.)), ('XYZ', (7., 1., 1., 1.))] + end for n in d.names if n != 'IEND']
    for only in onlys + [['XYZ', 'IEND']]:
        unit = 'dispatch with only=%r' % (only,)

        def go(only=only, unit=unit):
            nonlocal count
            bad = None
            for s in streams:
                if len(s) > len(end) + (depth if only in (None, ['GNODE']) else depth - 1):
                    continue
                ev = d.run(s, only)
                count += 1
                bad = judge_stream(s, only, d.names, ev)
                if bad:
                    bad = 'records %s, only=%r: %s' % ([(n, r[0]) for n, r in s], only, bad)
                    break
            if bad:
                rep.violation(unit, 'freesif/sequentialparser/parsers.py: parse_file, general_parser', bad)
            else:
                rep.good(unit)
        rep.run(unit, go)
    for s in singles:
        unit = 'dispatch of %s' % s[0][0]

        def one(s=s, unit=unit):
            nonlocal count
            for only in (None, [s[0][0]], ['XYZ']):
                count += 1
                bad = judge_stream(s, only, d.names, d.run(s, only))
                if bad:
                    rep.violation(unit, 'freesif/sequentialparser/parsers.py: parse_file, general_parser',
                                  'only=%r: %s' % (only, bad))
                    return
            rep.good(unit)
        rep.run(unit, one)
    rep.extra['streams of records analysed'] = count
    rep.analysed |= {v for v in d.I.visited if v.startswith('freesif')}
    return d.names


def check_A03(tier):
    rep = Report('A03', tier, TECH,
                 'every record of a stream is handed to its reader or skipped, with its continuation and text lines; the '
                 'next header returned is the one that follows on the file; every record type is recognised; every reader '
                 'consumes exactly its records and returns the next header',
                 ['fields of numbers never spell a record name or blanks',
                  'unformatted files: a record type with field count is followed by a known record type'])
    sys.path.insert(0, os.path.join(HERE, 'spec'))
    try:
        from record_names import NAMES
    finally:
        sys.path.pop(0)
    from .parser_checks import ParserWorld, RecordCheck, reader_where
    try:
        run = Run(rep)
        names = dispatch(rep, tier)
        w = ParserWorld()
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    every = sorted(n for n in set(NAMES) | set(names) if len(n) <= 8)      # a longer name does not fit in its field
    skips(run, every, tier)
    names_known(run, every)
    for name in sorted(w.records.RECORDS):
        def reader(name=name):
            if name not in w.readers:
                return
            chk = RecordCheck(w, rep, name)
            chk.run()
            about = lambda x: x.startswith(('returned header', 'number of fields read', 'number of text lines read',   # noqa: E731
                                            'reads no header', 'never returns'))
            bad = [x for x in chk.bad if about(x)]
            if bad:
                rep.violation('records consumed by reader of ' + name, 'freesif/sequentialparser/parsers.py:readers[%r] (%s)' % (
                    name, reader_where(w, name)), '; '.join(dict.fromkeys(bad)))
            elif any(about(x) for x in chk.dunno):
                rep.unknown('records consumed by reader of ' + name, '; '.join(chk.dunno)[:300])
            else:
                rep.good('records consumed by reader of ' + name)
        rep.run('records consumed by reader of ' + name, reader)
    rep.extra['call histories analysed'] = run.scenarios
    rep.analysed |= {v for i in (run.F.I, w.I) for v in i.visited if v.startswith('freesif')}
    return rep
