"""The writer of formatted sequential files (C06)."""
import itertools
import os
import re

from . import terms as T
from .terms import K, TRUE, FALSE, raw, seq, Unsupported
from .interp import Interp, py, Prim, EV
from .check import Report, HERE, REPO
from .file_checks import S


TECH = ('static value-flow analysis: FormattedFile is interpreted abstractly in write mode; the text it writes is a term of '
        'constants, formatted numbers and opaque strings, decomposed into lines and fields')
WHERE = 'freesif/sequentialparser/sequentialfiles.py: FormattedFile'


def num(k):
    return raw('sym', 'number %d' % k, 'num')


SPEC = re.compile(r'^(?:(.)?([<>=^]))?([-+ ]?)(0?)(\d*)(?:\.(\d+))?([a-zA-Z]?)$')


def field(spec):
    """'' if a number formatted this way fills 16 characters and keeps nine digits, else what is wrong; None: unknown"""
    m = SPEC.match(spec)
    if not m:
        return None
    fill, align, sign, zero, w, p, ty = m.groups()
    p = 6 if p is None else int(p)
    w = int(w or 0)
    if ty == '' or ty not in 'eEgG':
        return 'format %r does not fill fixed fields' % spec if ty in ('f', 'F', 'd', '') else None
    if fill not in (None, ' ', '0') or fill == '0' and align != '=':
        return 'format %r fills with %r' % (spec, fill)
    digits = p + 1 if ty in 'eE' else max(p, 1)
    longest = digits + 7            # sign, point, e, sign, three digits
    if w != 16 or longest > 16:
        return 'format %r gives fields of another width than 16' % spec
    if digits < 9:
        return 'format %r keeps %d digits only' % (spec, digits)
    return ''


def lines_of(texts):
    """[[constant or term]] of the lines; the last is what follows the last newline"""
    lines = [[]]
    for t in texts:
        for p in (t.args if t.op == 'cat' else (t,)):
            if T.is_kstr(p):
                bits = T.kval(p).split('\n')
                for k, b in enumerate(bits):
                    if k:
                        lines.append([])
                    if b:
                        if lines[-1] and isinstance(lines[-1][-1], str):
                            lines[-1][-1] += b
                        else:
                            lines[-1].append(b)
            else:
                lines[-1].append(p)
    return lines


class Pen(object):
    """what should be written"""
    def __init__(self):
        self.lines, self.open = [], False

    def write_record(self, name, rec):
        self.lines.append(['%-8s' % name])
        self.open = True
        self.write_floats(rec)

    def write_floats(self, xs):
        for x in xs:
            if not self.open or len(self.lines[-1]) == 5:
                self.lines.append([' ' * 8])
                self.open = True
            self.lines[-1].append(x)

    def write_string(self, s, blanks=8):
        self.lines.append([' ' * blanks + s] if isinstance(s, str) else ([' ' * blanks] if blanks else []) + [s])
        self.open = False


def compare(got, want):
    """what is wrong with the lines"""
    if got and not got[-1]:
        got = got[:-1]
    elif got:
        return 'the last line is not ended'
    for k, (a, b) in enumerate(itertools.zip_longest(got, want)):
        if a is None:
            return 'line %d is missing: %s' % (k + 1, show(b))
        if b is None:
            return 'line %d should not be there: %s' % (k + 1, show(a))
        x = []
        for p in a:
            if not isinstance(p, str) and p.op == 'fmt' and p.args[0].op == 'sym' and p.args[0].args[0].startswith('number'):
                bad = field(p.args[1]) if not p.args[2] else None
                if bad is None:
                    raise Unsupported('format %s' % T.show(p, 4))
                if bad:
                    return bad
                x.append(p.args[0])
            else:
                if not isinstance(p, str) and p.op not in ('sym', 'fmt'):
                    raise Unsupported('text written: %s' % T.show(p, 4))
                x.append(p)
        if x != b:
            return 'line %d is %s, should be %s' % (k + 1, show(x), show(b))
    return None


def show(l):
    return '|'.join(p if isinstance(p, str) else T.show(p, 3) for p in l)


def check_C06(tier):
    rep = Report('C06', tier, TECH,
                 'the text written by every sequence of calls consists of the lines a reader expects: name or eight blanks, up to four '
                 'fields of 16 characters with nine digits, continued lines filled up, lines ended before records, strings and the end',
                 ['record names have up to eight characters'])
    try:
        I = Interp(REPO)
        if I.load(S) is None:
            raise Unsupported('module %s has vanished' % S)
        I.load_text('drive', os.path.join(HERE, 'spec', 'drive_files.py'))
        I.unroll = 200
        cls = I.func(S, 'FormattedFile')
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep

    def opened(a, kw):
        mode = I.D(a[1] if len(a) > 1 else kw.get('mode', K('r')))
        if not T.is_kstr(mode) or 'b' in T.kval(mode) or 'w' not in T.kval(mode):
            raise Unsupported('mode of the file')
        if any(I.D(v) is not K(x) for k, v in kw.items() for x in ('\n',) if k == 'newline'):
            raise Unsupported('newline')
        c = I.func('drive', 'Sheet')
        return I.instantiate(c.args[0], c, [], {})
    I.hooks['open'] = I.hooks['io.open'] = opened

    def emit(args, kw):
        I.emit(T.kval(args[0]), *[I.D(a) for a in args[1:]])
        return T.NONE
    I.st[('g', 'drive', 'emit')] = py(Prim('emit', emit))
    base = dict(I.st)

    def one(calls, kind):
        I.st = dict(base)
        pen, steps, k = Pen(), [], 0
        for op, arg in calls:
            if op in ('R', 'F'):
                xs = [num(j) for j in range(k, k + arg)]
                k += arg
                a = seq(kind, xs)
                if op == 'R':
                    pen.write_record('RVNODDIS'[:4 + k % 5], xs)
                    steps.append(('write_record', [K('RVNODDIS'[:4 + k % 5]), a]))
                else:
                    pen.write_floats(xs)
                    steps.append(('write_floats', [a]))
            else:
                s = raw('sym', 'text %d' % len(steps), 'str') if kind == 'list' else K('a text'[:2 + len(steps)])
                pen.write_string(s if kind == 'list' else T.kval(s), *arg)
                steps.append(('write_string', [s] + [K(x) for x in arg]))
        t = seq('tuple', [seq('tuple', [K(op), seq('tuple', a)]) for op, a in steps])
        ex = I.run(I.func('drive', 'written'), [cls, t])
        if len(ex) != 1:
            raise Unsupported('outcome of a call is not determined')
        e = ex[0]
        if e.kind == 'raise':
            return '%s is raised' % T.show(e.val, 3)
        ev = list(e.st[EV].args[1:])
        if any(p.op == 'late' for p in ev):
            return 'written after the file is closed'
        if not any(p.op == 'close' for p in ev):
            return 'the file is not closed'
        return compare(lines_of([p.args[0] for p in ev if p.op == 'write']), pen.lines)

    def text(calls):
        return ', '.join({'R': 'record of %s', 'F': '%s numbers', 'S': 'string%s'}[op] %
                         (arg if op in 'RF' else ''.join(' after %d blanks' % x for x in arg)) for op, arg in calls) or 'nothing'
    singles = [('R', n) for n in range(14)] + [('F', n) for n in range(10)] + [('S', ()), ('S', (0,)), ('S', (3,))]
    few = [('R', 1), ('R', 3), ('R', 4), ('R', 6), ('F', 1), ('F', 2), ('F', 4), ('F', 7), ('S', ())]
    runs = [()] + [(a,) for a in singles] + list(itertools.product(singles, singles)) + list(itertools.product(few, repeat=3))
    runs += [tuple(('F', 1) for _ in range(n)) for n in range(2, 12)] + [(('R', 2),) + tuple(('F', x) for x in p)
                                                                     for p in itertools.product(range(4), repeat=4)]
    if tier == 'thorough':
        runs += list(itertools.product(few, repeat=4))
    groups = {}
    for r in runs:
        groups.setdefault(text(r[:1]) + (' and %d more calls' % (len(r) - 1) if len(r) > 1 else ''), []).append(r)

    def group(item):
        unit, rs = item

        def do():
            for r in rs:
                for kind in ('tuple', 'list'):
                    bad = one(r, kind)
                    rep.tally('sequences of calls')
                    if bad:
                        rep.violation(unit, WHERE, '%s: %s' % (text(r), bad))
                        return
            rep.good(unit)
        rep.run(unit, do)
        rep.analysed.update(v for v in I.visited if v.startswith('freesif'))
    rep.parallel(group, sorted(groups.items()))
    return rep
