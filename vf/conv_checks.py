"""Conversions as a whole: state carried between them, groups and attributes, open files and modes (A05 ... A08)."""
import itertools
import os

from . import terms as T
from . import txt
from .terms import K, NONE, TRUE, FALSE, raw, seq, Unsupported, as_parts
from .interp import Interp, py, Prim, EV, PC, is_ref
from .check import Report, HERE, REPO

M = 'freesif.sequentialparser.sif2hdf5'
P = 'freesif.sequentialparser.parsers'
F = 'freesif.data.file'
TECH = ('static value-flow analysis: the conversion is interpreted abstractly, from file name to HDF5 calls, over files of '
        'known layout with symbolic numbers, a symbolic state left by earlier conversions and symbolic failures of the '
        'operating system and the HDF5 library')
WHERE = 'freesif/sequentialparser/'


def sym(what, kind='num'):
    return raw('sym', what, kind)


def seltype(what):
    """a superelement type: 1, 2, ..."""
    return T.padd(K(1), raw('len', sym(what)))


class R(object):
    """a record: name, numbers (all of them), blank lead on continuation lines of unformatted files, texts"""
    def __init__(self, name, vals, blank=True, texts=()):
        self.name = name
        self.vals = [K(float(v)) if isinstance(v, (int, float)) else v for v in vals]
        while len(self.vals) < 4:
            self.vals.append(K(0.))
        self.blank, self.texts = blank, list(texts)

    def lines(self):
        v = self.vals[4:]
        return [v[k:k + 4] for k in range(0, len(v), 4)]


def encode(recs, binary):
    parts, ends, pos = [], [], 0
    if binary:
        parts = [K(b'K')]
    for r in recs:
        lines = [[K('%-8s' % r.name if not binary else ('%-8s' % r.name).encode())] +
                 [txt.piece(4 if binary else 16, v) for v in r.vals[:4]]]
        for l in r.lines():
            lead = [K(b' ' * 8)] if binary and r.blank else [] if binary else [K(' ' * 8)]
            if not binary:
                l = l + [K(0.)] * (4 - len(l))
            lines.append(lead + [txt.piece(4 if binary else 16, v) for v in l])
        for t in r.texts:
            lines.append([K(b' ' * 8 if binary else ' ' * 8), txt.piece(64, t, 'text')])
        for l in lines:
            n = sum(txt.width(p) for p in l)
            if binary:
                parts += [K(bytes([n]))] + l + [K(bytes([n]))]
            else:
                parts += l + [K('\n')]
                pos += n + 1
                ends.append(pos)
    return txt.mk('bytes' if binary else 'str', parts), ends


class World(object):
    def __init__(self, mods=(M,)):
        self.I = I = Interp(REPO)
        for m in mods:
            if I.load(m) is None:
                raise Unsupported('module %s has vanished' % m)
        I.load_text('drive', os.path.join(HERE, 'spec', 'drive_conv.py'))
        I.unroll = 400
        self.fail = False
        self.files = {}
        self.keep, self.stores, self.failure = False, {}, 'OSError'
        self.asked = []
        g = lambda n, v, m='drive': I.st.__setitem__(('g', m, n), v)      # noqa: E731

        def prim(n):
            g(n, py(Prim(n, getattr(self, 'p_' + n))))
        for n in ('emit', 'may_fail', 'exists', 'content_of', 'ends_of', 'opened', 'path_of', 'column_names', 'whole',
                  'items_of', 'group_symbol', 'last_name', 'depth_of', 'parent_of', 'same_path', 'keeps', 'groups_of'):
            prim(n)
        drive = lambda n: (lambda a, kw: I.call(I.func('drive', n), a, kw))     # noqa: E731
        for n in ('open', 'io.open', 'codecs.open'):
            I.hooks[n] = drive('open_')
        for n in ('tables.open_file', 'tables.file.open_file', 'tables.File'):
            I.hooks[n] = drive('open_hdf5')
        I.hooks['buffer'] = self.buffer
        I.hooks['contextlib.closing'] = drive('Closing')
        I.hooks['contextlib.ExitStack'] = drive('ExitStack')
        for n in ('isfile', 'exists', 'lexists'):
            I.hooks['path.' + n] = lambda a, kw: self.p_exists([I.D(a[0])], {})
        I.hooks['path.realpath'] = I.hooks['path.abspath'] = lambda a, kw: self.absolute(a[0])
        I.hooks['path.join'] = lambda a, kw: self.join(a)
        I.hooks['print'] = lambda a, kw: NONE
        g('sif2hdf5', I.func(M, 'sif2hdf5'))
        self.base = dict(I.st)
        self.keys = set(self.base)

    # ---------------------------------------------------- services of the driver
    def p_emit(self, a, kw):
        self.I.emit(T.kval(a[0]), *[self.I.D(x) for x in a[1:]])
        return NONE

    def p_items_of(self, a, kw):
        v = self.I.D(a[0])
        while v.op in ('array', 'call') and len(v.args) >= 1 and not (v.op == 'call' and v.args[0] != 'array'):
            v = self.I.D(v.args[-1])
        f = T.seq_fixed(v) if v.op == 'seq' else None
        if f is None:
            raise Unsupported('items written to an array: %s' % T.show(v, 5)[:200])
        return self.I.new_list([self.I.D(x) for x in f])

    def p_opened(self, a, kw):
        self.handles.append(a[0])
        return NONE

    def p_may_fail(self, a, kw):
        if self.fail:
            self.failures += 1
            c = sym('%s fails (%d)' % (T.kval(a[0]), self.failures), 'bool')
            I = self.I
            I.do_raise(raw('exc', self.failure), T.atom('truth', c))
        return NONE

    # paths of kept files are constant
    def const(self, t):
        t = self.I.D(t)
        if not T.is_kstr(t):
            raise Unsupported('path %s' % T.show(t, 4))
        return T.kval(t)

    def p_group_symbol(self, a, kw):
        return raw('sym', 'group ' + T.show(self.I.D(a[0]), 8))

    def p_last_name(self, a, kw):
        t = self.I.D(a[0])
        if T.is_kstr(t):
            return K(T.kval(t).rsplit('/', 1)[1])
        r = cut_path(t)
        return self.I.model.cat(r[1]) if r else raw('call', 'name of group', t)

    def p_same_path(self, a, kw):
        """paths that are built differently are different"""
        a = [self.I.D(x) for x in a]
        return TRUE if a[0] is a[1] else FALSE

    def p_depth_of(self, a, kw):
        t = self.I.D(a[0])
        return K(len([x for x in T.kval(t).split('/') if x])) if T.is_kstr(t) else raw('call', 'depth of group', t)

    def p_parent_of(self, a, kw):
        r = None if T.is_kstr(self.I.D(a[0])) else cut_path(self.I.D(a[0]))
        if r:
            return self.I.model.cat(r[0]) if r[0] else K('/')
        return K(self.const(a[0]).rsplit('/', 1)[0] or '/')

    def p_keeps(self, a, kw):
        return TRUE if self.keep else FALSE

    def p_groups_of(self, a, kw):
        if not self.keep:
            return seq('tuple', [])
        out = []
        if a[1] is not K('w'):
            for path, attrs in self.stores.get(self.I.D(a[0]), ()):
                out.append(seq('tuple', [K(path), self.kwdict(attrs)]))
        return seq('tuple', out)

    def name(self, t):
        return self.I.D(t)

    def p_exists(self, a, kw):
        n = self.name(a[0])
        self.asked.append(n)
        if n in self.files:
            return TRUE
        return FALSE

    def p_content_of(self, a, kw):
        c, binary, ends = self.files[self.name(a[0])]
        m = a[1]
        if not T.is_k(m):
            raise Unsupported('mode of open')
        b = 'b' in T.kval(m)
        if b == binary:
            return c
        if b:       # a formatted file looked at as bytes
            return txt.mk('bytes', [K(T.kval(p).encode()) if T.is_k(p) else p for p in txt.flat(c)[1]])
        raise Unsupported('unformatted file read as text')

    def p_ends_of(self, a, kw):
        return seq('tuple', [K(e) for e in self.files[self.name(a[0])][2]])

    def p_path_of(self, a, kw):
        t = self.I.D(a[0])
        return self.path(t)

    def path(self, t):
        if t.op == 'str' or T.is_k(t):
            v = T.kval(t)
            return K('/' + '/'.join(x for x in v.split('/') if x))
        ps = list(as_parts(t)) if t.op == 'seq' else list(t.args)
        return self.I.model.cat([self.slash(t)])

    def slash(self, t):
        """a path that starts with one slash"""
        parts = pieces(t)
        text = ''.join(T.kval(p) if T.is_k(p) else '\0%d\0' % k for k, p in enumerate(parts))
        text = '/' + text.lstrip('/')
        while '//' in text:
            text = text.replace('//', '/')
        out = []
        for k, s in enumerate(text.split('\0')):
            if k % 2:
                out.append(parts[int(s)])
            elif s:
                out.append(K(s))
        return self.I.model.cat(out)

    def p_column_names(self, a, kw):
        I = self.I
        d = a[0]
        if d is NONE:
            raise Unsupported('table without description')
        from .parser_checks import ParserWorld
        cols = ParserWorld.columns(self, d)
        return I.new_list([K(n) for n, _, _ in cols])

    def p_whole(self, a, kw):
        v = self.I.D(a[0])
        if T.is_k(v) and isinstance(T.kval(v), float) and T.kval(v) == int(T.kval(v)):
            return K(int(T.kval(v)))
        return v

    def buffer(self, a):
        n = a[0]
        if n.op == 'seq' and len(n.args) == 2:
            n = n.args[1]
        c = self.I.func('drive', 'Buffer')
        return self.I.instantiate(c.args[0], c, [n], {})

    def absolute(self, n):
        n = self.I.D(n)
        if T.is_k(n):
            v = T.kval(n)
            return K(v if v.startswith('/') else '/cwd/' + v)
        p = pieces(n)
        if T.is_k(p[0]) and T.kval(p[0]).startswith('/'):
            return n
        return raw('call', 'path.abspath', n)

    def join(self, a):
        I = self.I
        a = [I.D(x) for x in a]
        if all(T.is_k(x) for x in a):
            return K(os.path.join(*[T.kval(x) for x in a]))
        out = a[0]
        for x in a[1:]:
            out = I.model.cat([out, K('/'), x])
        return out

    # ---------------------------------------------------- runs
    def convert(self, steps, st=None, fail=False, session='convert'):
        """exits of a session of conversions [(args, kw)] starting in a state"""
        I = self.I
        I.st = dict(st if st is not None else self.base)
        self.fail, self.failures = fail, 0
        self.handles, self.asked = [], []
        t = seq('tuple', [seq('tuple', [seq('tuple', list(a)), self.kwdict(kw)]) for a, kw in steps])
        return I.run(I.func('drive', session), [t])

    def shared(self, st):
        """what a conversion leaves behind: everything reachable from what existed before"""
        base, out, todo, done = self.base, [], [], set()
        by = {}
        for k in st:
            if k[0] in ('a', 'c'):
                by.setdefault(k[1], []).append(k)

        def walk(t):
            for x in T.subterms(t):
                if is_ref(x) and x not in done:
                    done.add(x)
                    todo.append(x)
        for k, v in st.items():
            if k[0] == 'g' and k[1] == 'drive' or k in (EV, PC):
                continue
            if (k[0] == 'g' or k in base) and base.get(k) is not v:
                out.append((k, v))
                walk(v)
        while todo:
            r = todo.pop()
            for k in by.get(r, ()):
                if base.get(k) is not st[k]:
                    out.append((k, st[k]))
                walk(st[k])
        return frozenset(out)

    def kwdict(self, kw):
        r = self.I.new_ref('dict', seq('dict', []))
        for k in sorted(kw):
            self.I.setitem(r, K(k), kw[k])
        return r

    def events(self, e):
        ev = e.st[EV]
        if ev.op != 'seq' or any(p.op == 'seg' for p in ev.args[1:]):
            bad = [p for p in ev.args[1:] if p.op == 'seg'][:1] if ev.op == 'seq' else [ev]
            raise Unsupported('outcome of a conversion is not determined: %s' % T.show(bad[0], 7)[:300])
        return list(ev.args[1:])


def cut_path(t):
    """(parts before the last slash, parts after it) of a path of constants and unknown names, which have no slashes"""
    parts = pieces(t)
    for k in range(len(parts) - 1, -1, -1):
        if T.is_kstr(parts[k]) and '/' in T.kval(parts[k]):
            a, _, b = T.kval(parts[k]).rpartition('/')
            return parts[:k] + ([K(a)] if a else []), ([K(b)] if b else []) + parts[k + 1:]
    return None


def pieces(t):
    return list(t.args) if t.op == 'cat' else [t]


# ------------------------------------------------------------------ scenarios
DIR = '/data/run'


class Scene(object):
    """one conversion: a file with its lower level files and the arguments of the call"""
    def __init__(self, w, letter='T', ext='FEM', fileprefix='ab-', number='7', rows=(), prefix='', useprefix=True,
                 binary=False, append=False, in_memory=False, only=None, present=None, order=0, tag='', seltyp=None,
                 extra=True, hdf5=True, case=0, level=1):
        self.w, self.letter, self.ext, self.fileprefix = w, letter, ext, fileprefix
        self.rows, self.prefix, self.useprefix, self.binary = list(rows), prefix, useprefix, binary
        self.append, self.in_memory, self.only = append, in_memory, only
        self.seltyp = seltyp or seltype('type of the superelement' + tag)
        self.tag, self.extra = tag, extra
        w.I.st = w.base
        self.name = '%s/%s%s%s.%s' % (DIR, fileprefix, letter, number, ext)
        self.hdf5 = K('/out/model.h5') if hdf5 else NONE
        self.order = order
        self.kind = letter.upper()
        # (file, row, records)
        self.lower = []
        self.kinds = {}
        cat = w.I.model.cat
        st = lambda x: w.I.model.to_str(x)      # noqa: E731
        for k, (ihref, iselty, indsel, islevl) in enumerate(self.rows[1:], 1):
            if ext.upper() in ('SIF', 'SIU'):
                if islevl != 1:
                    continue
                n = cat([K('%s/%sR' % (DIR, fileprefix)), st(iselty), K('H%d.%s' % (ihref, ext))])
            else:
                if indsel != 1:
                    continue
                n = cat([K('%s/%sT' % (DIR, fileprefix)), st(iselty), K('.' + ext)])
            self.lower.append((n, self.rows[k], k))
        self.present = present if present is not None else [True] * len(self.lower)

    def fields(self, what, n):
        return [K(5.)] + [sym('%s %d%s' % (what, k, self.tag)) for k in range(1, n)]

    def top_records(self):
        r = []
        ident = R('IDENT', [1., self.seltyp, 3.])
        hier = []
        for ihref, iselty, indsel, islevl in self.rows:
            hier.append(R('HIERARCH', [8., float(ihref), iselty, float(indsel), float(islevl), 1., 0., 0.], blank=False))
        date = R('DATE', [1., 0., 1., 72.], texts=[sym('date' + self.tag, 'str')])
        r = [ident] + hier if self.order == 0 else hier + [ident]
        if self.order == 2:
            r = [ident, date] + hier
        elif self.extra:
            r.append(date)
        return r + self.model_records('top')

    def model_records(self, where):
        if not self.extra:
            return [R('IEND', [0.])]
        return [R('GNODE', self.fields(where + ' gnode', 4)), R('XYZ', self.fields(where + ' xyz', 4)),
                R('GCOORD', self.fields(where + ' gcoord', 4)),
                R('GNODE', self.fields(where + ' gnode again', 4)), R('BEUSLO', [3.] + [1.] * 3, blank=True)
                ][:4] + [R('IEND', [0.])]

    def lower_records(self, row):
        return [R('IDENT', [1., row[1], 3.]), R('DATE', [1., 0., 1., 72.], texts=[sym('lower date', 'str')]),
                R('GNODE', self.fields('lower gnode', 4)), R('GCOORD', self.fields('lower gcoord', 4)),
                R('IEND', [0.])]

    def files(self):
        out = {}
        for n, recs in [(K(self.name), self.top_records())] + [
                (n, self.lower_records(row)) for (n, row, k), here in zip(self.lower, self.present) if here]:
            c, ends = encode(recs, self.binary)
            out[n] = (c, self.binary, ends)
        return out

    def call(self):
        kw = {'append': TRUE if self.append else FALSE, 'usefileprefix': TRUE if self.useprefix else FALSE,
              'in_memory': TRUE if self.in_memory else FALSE}
        if self.prefix != '':
            kw['prefix'] = self.prefix if isinstance(self.prefix, T.Term) else K(self.prefix)
        if self.only is not None:
            kw['only'] = seq('tuple', [K(x) for x in self.only])
        if self.hdf5 is not NONE:
            kw['hdf5name'] = self.hdf5
        return ([K(self.name)], kw)

    def describe(self):
        t = '%s%s' % (os.path.basename(self.name), '' if not self.rows else ', hierarchy of %d levels, superelements %s' % (
            max(r[3] for r in self.rows), ['%s/%d level %d' % (T.show(r[1], 2), r[2], r[3]) for r in self.rows]))
        args = [k for k, v in (('append', self.append), ('in_memory', self.in_memory), ('binary', self.binary),
                               ('only=%r' % (self.only,), self.only)) if v]
        if not self.useprefix:
            args.append('usefileprefix=False')
        if self.prefix != '':
            args.append('prefix')
        if self.order:
            args.append('order of records %d' % self.order)
        if not all(self.present):
            args.append('lower files present: %s' % self.present)
        return ', '.join([t] + args)

    # ---------------------------------------------------- what should come out
    def expected(self, readers):
        """[(file, group, {attribute: value}, [tables])]"""
        w = self.w
        cat = w.I.model.cat
        st = lambda x: w.I.model.to_str(x)      # noqa: E731
        pre = [self.prefix if isinstance(self.prefix, T.Term) else K(self.prefix)]
        if self.useprefix:
            pre.append(K(self.fileprefix))
        top = cat([K('/')] + pre + [K(self.kind), st(self.seltyp)])
        levels = {'T': 'FIRSTLEVEL', 'L': 'FIRSTLEVEL', 'R': 'FIRSTLEVEL', 'G': ''}
        level = levels[self.kind]
        if self.rows:
            level = 'TOPLEVEL' if self.rows[0][3] > 1 else 'FIRSTLEVEL'
        out = [(K(self.name), top, self.attrs(self.top_records(), readers, self.seltyp, level),
                self.tables(self.top_records(), readers))]
        for (n, row, k), here in zip(self.lower, self.present):
            if not here:
                continue
            g = [top, K('/' + self.kind), st(row[1])]
            if self.kind == 'R':
                g.append(K('_%d' % row[2]))
            a = self.attrs(self.lower_records(row), readers, row[1], 'FIRSTLEVEL' if row[3] == 1 else 'INTERLEVEL')
            if self.kind == 'R':
                a['INDEX'] = K(row[2])
            out.append((n, cat(g), a, self.tables(self.lower_records(row), readers)))
        return out

    def stored(self, recs, readers):
        names = []
        for r in recs:
            if r.name in readers and r.name not in ('IEND', 'IRECSIZE') and r.name not in names and \
                    (not self.only or r.name in self.only):
                names.append(r.name)
        return names

    def attrs(self, recs, readers, seltyp, level):
        return {'RECORDS': self.stored(recs, readers), 'LEVEL': K(level), 'SELTYP': seltyp, 'FILETYPE': K(self.kind),
                'DATATYPE': K('HYDRODYNAMIC' if self.kind == 'G' else 'STRUCTURAL')}

    def tables(self, recs, readers):
        return sorted(n.lower() for n in self.stored(recs, readers))


class Series(object):
    """one conversion of a sequence of files; the scenes have the file prefix, prefix and records of one file each"""
    def __init__(self, w, scenes, kind='tuple', prefix=None, one_file=True, append=False, positional=False):
        self.w, self.scenes, self.kind, self.prefix = w, scenes, kind, prefix
        self.one_file, self.append, self.positional = one_file, append, positional
        self.useprefix, self.only = scenes[0].useprefix, scenes[0].only

    def files(self):
        out = {}
        for s in self.scenes:
            out.update(s.files())
        return out

    def call(self):
        self.w.I.st = self.w.base
        t = lambda x: x if isinstance(x, T.Term) else K(x)      # noqa: E731
        kw = {}
        if not self.useprefix:
            kw['usefileprefix'] = FALSE
        if self.one_file:
            kw['hdf5name'] = K('/out/model.h5')
        if self.append:
            kw['append'] = TRUE
        if self.prefix == 'one':
            kw['prefix'] = t(self.scenes[0].prefix)
        elif self.prefix:
            kw['prefix'] = seq(self.prefix, [t(s.prefix) for s in self.scenes])
        if self.only is not None:
            kw['only'] = seq('list', [K(x) for x in self.only])
        names = seq(self.kind, [K(s.name) for s in self.scenes])
        if self.positional:
            return ([names, kw.get('hdf5name', NONE), kw.get('append', FALSE), kw.get('usefileprefix', TRUE), kw.get('prefix', K('')),
                     kw.get('only', NONE)], {})
        return ([names], kw)

    def describe(self):
        return '%s of files%s%s%s%s: %s' % (
            self.kind, ' into one' if self.one_file else ', each into its own', ', append' if self.append else '',
            ', prefix: %s' % self.prefix if self.prefix else '', ', positional arguments' if self.positional else '',
            '; '.join(s.describe() for s in self.scenes))

    def expected(self, readers):
        return [x for s in self.scenes for x in s.expected(readers)]

    def judge(self, events, readers):
        at = [k for k, p in enumerate(events) if p.op == 'open_file']
        if len(at) == 1:
            bad = judge_groups(self, events, readers)
        elif len(at) != len(self.scenes):
            return '%d HDF5 files are opened for %d files' % (len(at), len(self.scenes))
        else:
            bad = None
            for s, a, b in zip(self.scenes, at, at[1:] + [len(events)]):
                bad = bad or judge_groups(s, events[a:b], readers)
        return bad or self.opened(events)

    def opened(self, events):
        names = {p.args[1] for p in events if p.op == 'open'}
        want = set(self.files())
        for n in want - names:
            return 'file %s is not read' % T.show(n, 6)
        for n in names - want:
            return 'file %s is read, which is no part of the model' % T.show(n, 6)
        return None


def judge_groups(scene, events, readers):
    """text of what is wrong with the groups and attributes of one conversion"""
    want = scene.expected(readers)
    attrs, tables = {}, []
    files = [p.args[0] for p in events if p.op == 'open_file']
    for p in events:
        if p.op == 'attribute':
            attrs.setdefault(p.args[0], {})[p.args[1]] = p.args[2]
        elif p.op in ('table', 'array'):
            tables.append((p.args[1], p.args[2] if p.op == 'table' else raw('array', p.args[2])))
            if len(files) != 1 or p.args[0] is not files[0]:
                return '%s %s is created in another file than the one opened for the conversion' % (p.op, T.show(p.args[2], 4))
    paths = [w[1] for w in want]
    for q in dict.fromkeys(list(attrs) + [t[0] for t in tables]):
        if q not in paths:
            return 'data is stored in group %s; the groups should be %s' % (
                T.show(q, 6), ', '.join(T.show(x, 6) for x in paths))
    for name, path, a, tabs in want:
        got = attrs.get(path)
        if got is None:
            return 'no attributes are set on group %s of file %s' % (T.show(path, 6), T.show(name, 6))
        for k, v in a.items():
            g = got.get(K(k))
            if g is None:
                return 'attribute %s of group %s is not set' % (k, T.show(path, 6))
            if k == 'RECORDS':
                f = T.seq_fixed(g)
                if f is None or not all(T.is_k(x) for x in f):
                    raise Unsupported('attribute RECORDS is not determined: %s' % T.show(g, 6)[:200])
                f = None if f is None else [x for x in f if x not in (K('IEND'), K('IRECSIZE'))]
                if f is None or f != [K(x) for x in v]:
                    return 'attribute RECORDS of group %s is %s, should be %s' % (T.show(path, 6), T.show(g, 6), v)
            elif g is not v and not (T.is_k(g) and T.is_k(v) and T.kval(g) == T.kval(v)):
                return 'attribute %s of group %s is %s, should be %s' % (k, T.show(path, 6), T.show(g, 6), T.show(v, 6))
        mine = sorted(T.kval(t) for q, t in tables if q is path and t.op != 'array')
        for q, t in tables:
            if q is path and t.op == 'array' and not any(T.kval(t.args[0]).startswith(x + '_') for x in tabs):
                return 'array %s in group %s belongs to no record of that file' % (T.kval(t.args[0]), T.show(path, 6))
        if mine != tabs:
            return 'tables of group %s are %s, should be %s' % (T.show(path, 6), mine, tabs)
    return None


def lower_opened(scene, events):
    """text of what is wrong with the sequential files read"""
    names = [p.args[1] for p in events if p.op == 'open']
    want = [K(scene.name)] + [n for (n, row, k), here in zip(scene.lower, scene.present) if here]
    seen = list(dict.fromkeys(names))
    real = {K(DIR + '/' + T.kval(n)[len(DIR) + 1:]) if T.is_k(n) else n for n in seen}
    for n in want:
        if n not in real:
            return 'file %s of the model is not read' % T.show(n, 6)
    for n in real:
        if n not in want:
            return 'file %s is read, which is no part of the model' % T.show(n, 6)
    return None


class Outcome(object):
    """the single way a conversion ends, as events; UnSupported when it is not determined"""
    def __init__(self, w, exits):
        if len(exits) != 1 or exits[0].kind != 'return':
            bad = [e for e in exits if e.kind != 'return'] or exits
            raise Unsupported('a conversion of complete files may end by %s' % ', '.join(
                sorted({'%s %s' % (e.kind, T.show(e.val, 3)) for e in bad})))
        self.exit = exits[0]
        self.events = [p for p in w.events(exits[0]) if p.op in KINDS]
        self.failed = any(p.op == 'failed' for p in self.events)


KINDS = ('begin', 'open', 'open_file', 'close', 'table', 'array', 'attribute', 'row', 'items', 'write', 'done', 'failed')


def readers_of(w):
    return [T.kval(k) for k, v in w.I.model.dict_fixed(w.I.content(w.I.func(P, 'readers')))]


def scenes_of_A08(w, tier):
    s = seltype
    A, B, D, E_ = s('A'), s('B'), s('D'), s('E')
    pre = sym('prefix', 'str')
    out = []
    add = lambda **kw: out.append(Scene(w, **kw))           # noqa: E731
    for letter, exts in (('T', ('FEM',)), ('L', ('FEM',)), ('R', ('SIF', 'SIU')), ('G', ('SIF', 'SIU'))):
        for ext in exts:
            for binary in ((False, True) if ext != 'SIU' else (True,)):
                for use in (True, False):
                    for prefix in ('', pre):
                        for fp in ('', 'ab-', 'Model_2'):
                            if tier == 'quick' and fp != 'ab-' and (prefix == '' or ext == 'SIU'):
                                continue
                            add(letter=letter, ext=ext, binary=binary, useprefix=use, prefix=prefix, fileprefix=fp)
    for letter, ext in (('t', 'fem'), ('r', 'siu'), ('g', 'sif'), ('l', 'Fem'), ('R', 'sif')):
        add(letter=letter, ext=ext, binary=ext == 'siu')
    for letter, ext in (('R', 'SIU'), ('G', 'SIF'), ('T', 'FEM')):
        add(letter=letter, ext=ext, append=True)
        add(letter=letter, ext=ext, in_memory=True)
        add(letter=letter, ext=ext, only=('IDENT', 'HIERARCH', 'GNODE'))
        add(letter=letter, ext=ext, only=('IDENT', 'GCOORD'), order=2)
    # hierarchies
    hier = [
        ('one superelement on a results file', 'R', [(1, A, 1, 1)]),
        ('two levels', 'RT', [(1, A, 1, 2), (2, B, 1, 1)]),
        ('two levels, two superelements', 'RT', [(1, A, 1, 2), (2, B, 1, 1), (3, D, 1, 1)]),
        ('two levels, repeated superelement', 'RT', [(1, A, 1, 2), (2, B, 1, 1), (3, B, 2, 1)]),
        ('two levels, repeated superelements mixed', 'RT', [(1, A, 1, 2), (2, B, 1, 1), (3, D, 1, 1), (4, B, 2, 1), (5, D, 2, 1)]),
        ('three levels', 'RT', [(1, A, 1, 3), (2, B, 1, 2), (3, D, 1, 1)]),
        ('three levels, repeated first level', 'RT', [(1, A, 1, 3), (2, B, 1, 2), (3, D, 1, 1), (4, D, 2, 1)]),
        ('three levels, repeated intermediate level', 'RT', [(1, A, 1, 3), (2, B, 1, 2), (3, D, 1, 1), (4, B, 2, 2), (5, D, 2, 1)]),
        ('three levels, mixed', 'RT', [(1, A, 1, 3), (2, B, 1, 1), (3, D, 1, 2), (4, E_, 1, 1), (5, E_, 2, 1)]),
        ('four levels', 'RT', [(1, A, 1, 4), (2, B, 1, 3), (3, D, 1, 2), (4, E_, 1, 1)]),
    ]
    for what, letters, rows in hier:
        for letter in letters:
            for ext, binary in ((('FEM', False), ('FEM', True)) if letter == 'T' else (('SIF', False), ('SIF', True), ('SIU', True))):
                kw = dict(letter=letter, ext=ext, binary=binary, rows=rows, seltyp=A)
                if tier == 'quick' and (binary and ext != 'SIU') and len(rows) > 3:
                    continue
                add(**kw)
                if ext == 'SIF' and tier == 'quick':
                    continue
                add(prefix=pre, useprefix=False, **kw)
                for order in (1, 2):
                    add(order=order, **kw)
                n = len(out[-1].lower)
                for k in range(n):
                    if n <= 4:
                        add(present=[j != k for j in range(n)], **kw)
                if n:
                    add(present=[False] * n, **kw)
                    add(only=('IDENT', 'HIERARCH', 'GNODE'), **kw)
                    add(fileprefix='', number='1', in_memory=True, **kw)
                    add(append=True, prefix=pre, **kw)
                    if letter == 'R':
                        add(number='7H1', **kw)
    # sequences of files
    kinds = [('T', 'FEM', False, [(1, A, 1, 2), (2, B, 1, 1)]), ('R', 'SIU', True, [(1, B, 1, 2), (2, D, 1, 1), (3, D, 2, 1)]),
             ('G', 'SIF', False, [])]
    for n in (1, 2, 3):
        for style in (None, 'one', 'tuple', 'list'):
            for use in (True, False):
                for only in (None, ('IDENT', 'HIERARCH', 'GNODE')):
                    if tier == 'quick' and n == 3 and only:
                        continue
                    for kind in ('tuple', 'list'):
                        for one_file in (True, False):
                            scenes = []
                            for k in range(n):
                                letter, ext, binary, rows = kinds[k]
                                pre = '' if not style else 'q7-' if style == 'one' else sym('prefix %d' % k, 'str')
                                scenes.append(Scene(w, letter=letter, ext=ext, binary=binary, rows=rows, prefix=pre, useprefix=use,
                                                    only=only, seltyp=[A, B, D][k], tag=' %d' % k, fileprefix=['ab-', '', 'Model_2'][k],
                                                    number='%d' % (k + 7)))
                            out.append(Series(w, scenes, kind, style, one_file, append=one_file and use and kind == 'list',
                                              positional=kind == 'list' and style == 'tuple'))
    return out


def check_A08(tier):
    rep = Report('A08', tier, TECH,
                 'groups, attributes, tables and arrays created by a conversion, and the files it reads, are those that '
                 'follow from file type, prefix options and hierarchy records',
                 ['superelement types are nonzero', 'the HDF5 library creates groups and tables as it is told'])
    try:
        w = World()
        readers = readers_of(w)
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    where = WHERE + 'sif2hdf5.py: sif2hdf5; parsers.py: parse_file, get_path'

    def work(scene):
        unit = scene.describe()

        def one():
            w.files = scene.files()
            o = Outcome(w, w.convert([scene.call()]))
            if o.failed:
                rep.violation(unit, where, 'the conversion fails: %s' % ', '.join(T.show(p, 4) for p in o.events if p.op == 'failed'))
                return
            if isinstance(scene, Series):
                bad = scene.judge(o.events, readers)
            else:
                bad = judge_groups(scene, o.events, readers) or lower_opened(scene, o.events)
            if bad:
                rep.violation(unit, where, bad)
            else:
                rep.good(unit)
        rep.tally('conversions analysed')
        rep.run(unit, one)
        rep.analysed |= {v for v in w.I.visited if v.startswith('freesif')}
    rep.parallel(work, scenes_of_A08(w, tier))
    return rep


# ------------------------------------------------------------------ A05
def fill(name, head, more=(), blank=True):
    return R(name, list(head) + list(more), blank=blank)


def rows_of(n, what, *known):
    return list(known) + [sym('%s %d' % (what, k)) for k in range(len(known), n)]


def model_rich(tag, eltyps=((1, 24), (2, 15), (15, 24))):
    """records of a structural model that leave traces in the parser"""
    nodes = {24: 4, 15: 2, 28: 8}
    out = [R('GNODE', rows_of(4, 'gnode' + tag, 1.)), R('GCOORD', rows_of(4, 'gcoord' + tag, 1.))]
    for elno, eltyp in eltyps:
        out.append(R('GELMNT1', [float(elno), float(elno), float(eltyp), 0.] + rows_of(nodes[eltyp], 'nodes%d' % elno + tag)))
    for elno, eltyp in eltyps:
        out.append(R('GELREF1', [float(elno), 1., 0., 0.] + rows_of(4, 'ref%d' % elno + tag) + [-1., 0., 0., 0.] +
                     rows_of(nodes[eltyp], 'geono%d' % elno + tag)))
    return out


def compdef(tag, ir=1, lenrec=3, what='STRESS'):
    return R('RD' + what, [3. + lenrec, float(ir), float(lenrec)] + rows_of(lenrec, 'comps' + tag), blank=False)


def rdpoints(tag, ispalt=1, iielno=1, icoref=15, nsp=2, nlay=1, nok=1, noj=2, noi=1):
    pts = []
    for k in range(nok * noj * noi):
        pts += [float(k + 1)] + rows_of(3, 'point%d' % k + tag)
    return R('RDPOINTS', [9., float(ispalt), float(iielno), float(icoref), 15., float(nsp),
                          float(nok * 10000 + noj * 100 + noi), 0., float(nlay)] + pts, blank=False)


def rdielcor(tag, icoref=15, nok=1, noj=1, noi=3, nlay=0):
    n = nok + noj + noi + 2 * nlay
    return R('RDIELCOR', [3. + n, float(icoref), 1.] + rows_of(n, 'coordinates' + tag), blank=False)


def rdresref(tag, ires=1, icompl=1):
    return R('RDRESREF', [7. + 3, float(ires), 1., 1., 1., float(icompl), 1.] + rows_of(3, 'reftyp' + tag), blank=False)


def rvstress(tag, ires=1, iielno=1, ispalt=1, ir=1, n=6, what='STRESS'):
    return R('RV' + what, [5. + n, float(ires), float(iielno), float(ispalt), float(ir)] + rows_of(n, 'stress' + tag), blank=False)


def results_rich(tag):
    return [compdef(tag), compdef(tag + 'f', what='FORCES', lenrec=2), rdpoints(tag), rdpoints(tag + '2', iielno=2, icoref=24, nsp=4, nlay=2),
            rdielcor(tag, 15, nok=1, noj=2, noi=1, nlay=1), rdresref(tag), rdresref(tag + 'r', ires=2, icompl=0),
            rvstress(tag, n=2 * 3 * 2), rvstress(tag + 'b', ires=2, n=2 * 3),
            rvstress(tag + 'f', what='FORCES', n=2 * 2 * 2)]


def hydro_rich(tag):
    return [R('WDRESREF', [7., 1., 1., 1., 1.] + rows_of(2, 'directions' + tag), blank=False), wglobdef(tag)]


def wglobdef(tag):
    return R('WGLOBDEF', [5., sym('gravity' + tag), sym('density' + tag), 1., sym('depth' + tag)], blank=False)


def probes():
    """(name, letter, records) of a file whose conversion shows traces of what was read before"""
    i = R('IDENT', [1., 9., 3.])
    h = lambda lev=1: R('HIERARCH', [8., 1., 9., 1., float(lev), 1., 0., 0.], blank=False)     # noqa: E731
    out = [
        ('model', 'T', [i] + model_rich(' p')),
        ('model with other element types', 'T', [i] + model_rich(' p', ((1, 15), (2, 28)))),
        ('elements without their types', 'T', [i] + [r for r in model_rich(' p') if r.name != 'GELMNT1']),
        ('load file', 'L', [i] + model_rich(' p')[:2]),
        ('results', 'R', [i] + model_rich(' p', ((1, 15),)) + results_rich(' p')),
        ('results with hierarchy record', 'R', [i, h()] + results_rich(' p')),
        ('coordinates without result points', 'R', [i, rdielcor(' p')]),
        ('coordinates of shells without result points', 'R', [i, rdielcor(' p', 24, nok=2, noj=3, noi=3)]),
        ('results without components', 'R', [i] + [r for r in results_rich(' p') if r.name not in ('RDSTRESS', 'RDFORCES')]),
        ('results without result points', 'R', [i] + [r for r in results_rich(' p') if r.name not in ('RDPOINTS', 'RDIELCOR')]),
        ('results without references', 'R', [i] + [r for r in results_rich(' p') if r.name != 'RDRESREF']),
        ('no identification', 'R', [compdef(' p')]),
        ('hierarchy record only', 'R', [h(), compdef(' p')]),
        ('hydrodynamic results', 'G', [i, wglobdef(' p')]),
        ('nothing but identification', 'R', [i]),
        ('input file', 'T', [i]),
    ]
    return out


EXT = {'T': 'FEM', 'L': 'FEM', 'R': 'SIF', 'G': 'SIF'}


class Plain(object):
    """one file of given records, with or without a hierarchy"""
    def __init__(self, letter, recs, number='9', prefix='', fileprefix='', binary=True, hdf5='/out/two.h5', directory='/data/two',
                 **kw):
        self.name = '%s/%s%s%s.%s' % (directory, fileprefix, letter, number, EXT[letter])
        self.recs, self.binary, self.prefix, self.kw = recs + [R('IEND', [0.])], binary, prefix, kw
        self.hdf5 = hdf5

    def files(self):
        c, ends = encode(self.recs, self.binary)
        return {K(self.name): (c, self.binary, ends)}

    def call(self):
        kw = {'hdf5name': K(self.hdf5)}
        if self.prefix:
            kw['prefix'] = K(self.prefix)
        kw.update(self.kw)
        return [K(self.name)], kw


def histories(w):
    """earlier conversions: [(name, files, calls)]"""
    one = lambda n, e: (n, e.files(), [e.call()])       # noqa: E731
    i = R('IDENT', [1., 8., 3.])
    out = []
    for binary in (True, False):
        b = dict(binary=binary, directory='/data/one', hdf5='/out/one.h5', number='8')
        out.append(one('results%s' % (' (formatted)' if not binary else ''),
                       Plain('R', [R('IRECSIZE', [1., 256., 0., 0.]), i, R('HIERARCH', [8., 1., 8., 1., 1., 1., 0., 0.], blank=False)] +
                             model_rich(' e') + results_rich(' e'), prefix='early', **b)))
        out.append(one('model%s' % (' (formatted)' if not binary else ''), Plain('T', [i] + model_rich(' e'), **b)))
    b['binary'] = True
    out.append(one('hydrodynamic results', Plain('G', [i] + hydro_rich(' e'), fileprefix='early', **b)))
    A, B = K(8), K(7)
    for letter, ext in (('R', 'SIF'), ('T', 'FEM')):
        sc = Scene(w, letter=letter, ext=ext, binary=True, rows=[(1, A, 1, 2), (2, B, 1, 1), (3, B, 2, 1)], seltyp=A, number='8',
                   fileprefix='early')
        rich = results_rich if letter == 'R' else model_rich
        extra = rich(' low')
        low = sc.lower_records
        sc.lower_records = lambda row, low=low, extra=extra: low(row)[:-1] + extra + low(row)[-1:]
        out.append(('%s with a hierarchy' % ('results' if letter == 'R' else 'model'), sc.files(), [sc.call()]))
    return out


def observable(events, w):
    """events without the identity of handles"""
    names = {}

    def ren(t):
        if isinstance(t, T.Term) and is_ref(t):
            return names.setdefault(t, 'handle %d' % len(names))
        if isinstance(t, T.Term) and t.op == 'seq':
            return ('seq',) + tuple(ren(x) for x in t.args)
        return t
    out = []
    for p in events:
        a = [ren(x) for x in p.args]
        if p.op == 'attribute':
            # the list of records by content
            a = [ren(w.I.D(x)) for x in p.args]
        out.append((p.op,) + tuple(a))
    return out


def show_event(e):
    if e is None:
        return 'nothing'
    return '%s(%s)' % (e[0], ', '.join(T.show(x, 6) if isinstance(x, T.Term) else
                                       '[%s]' % ', '.join(T.show(y, 6) if isinstance(y, T.Term) else str(y) for y in x[2:])
                                       if isinstance(x, tuple) else str(x) for x in e[1:]))[:300]


def difference(a, b):
    for k in range(max(len(a), len(b))):
        x, y = (a[k] if k < len(a) else None), (b[k] if k < len(b) else None)
        if x != y:
            return x, y
    return None


def cover(seen):
    """states in which together every variable has every value that it has in any of them"""
    out, had = {}, set()
    for sig in sorted(seen, key=len, reverse=True):
        if not sig <= had:
            had |= sig
            out[sig] = seen[sig]
    return out


def check_A05(tier):
    rep = Report('A05', tier, TECH,
                 'the events of a conversion (tables, rows, arrays, attributes, outcome) after earlier conversions - complete, '
                 'or failing at any point - are those of the same conversion in a fresh process; likewise for a lower level '
                 'file after other files of the same model', ['failures are those of opening, reading, creating and writing'])
    try:
        w = World()
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    where = WHERE + 'parsers.py: module level state; sif2hdf5.py: sif2hdf5'
    hist = histories(w)
    targets = []
    for name, letter, recs in probes():
        p = Plain(letter, recs)
        targets.append((name, p.files(), p.call()))
    sc = Scene(w, letter='R', ext='SIF', binary=True, rows=[(1, K(9), 1, 2), (2, K(7), 1, 1)], seltyp=K(9), number='9', fileprefix='')
    targets.append(('results with a hierarchy', sc.files(), sc.call()))
    pasts = []
    for hname, hfiles, calls in hist:
        for failing in (False, True):
            if failing and tier == 'quick' and 'formatted' in hname:
                continue
            unit = 'after %s%s' % (hname, ' failing anywhere' if failing else '')
            states = []

            def first():
                w.files = dict(hfiles)
                ex = w.convert(calls, fail=failing, session='once' if failing else 'convert')
                seen = {}
                for e in ex:
                    if e.kind == 'return' and failing:
                        continue
                    if e.kind != ('raise' if failing else 'return'):
                        raise Unsupported('history ends by %s' % e.kind)
                    st = dict(e.st)
                    st[EV] = w.base[EV]
                    st[PC] = w.base[PC]
                    seen.setdefault(w.shared(st), st)
                if failing and tier == 'quick':
                    seen = cover(seen)
                states.extend(seen.values())
            rep.run(unit, first)
            pasts.append((unit, states))
            rep.tally('distinct states left by earlier conversions', len(states))

    known = {}

    def pairs(item):
        (name, files, call), past = item
        w.files = dict(files)
        alone = known.setdefault(name, [])
        if not alone:
            rep.run('fresh ' + name, lambda: alone.append(observable(Outcome(w, w.convert([call])).events, w)))
        for unit, states in [past] if alone else ():
            def one():
                for st in states:
                    got = observable(Outcome(w, w.convert([call], st=st)).events, w)
                    rep.tally('pairs of conversions analysed')
                    d = difference(alone[0], got)
                    if d:
                        rep.violation('%s: %s' % (unit, name), where,
                                      'conversion of a file (%s) %s gives %s where a fresh process gives %s' % (
                                          name, unit, show_event(d[1]), show_event(d[0])))
                        return
                rep.good('%s: %s' % (unit, name))
            rep.run('%s: %s' % (unit, name), one)
        rep.analysed |= {v for v in w.I.visited if v.startswith('freesif')}
    rep.parallel(pairs, [(t, p) for p in pasts for t in targets])
    rep.parallel(lambda p: lower_files(rep, w, p, where), [p for p in probes() if p[1] in 'RT'])
    return rep


def lower_files(rep, w, probe, where):
    """a lower level file converts alike whatever the files of the model before it contain"""
    A, B, D = K(9), K(7), K(6)
    for name, letter, recs in [probe]:
        if any(r.name == 'HIERARCH' for r in recs):
            continue
        for three in (False, True):
            rows = [(1, A, 1, 2), (2, B, 1, 1), (3, D, 1, 1)] if not three else [(1, A, 1, 3), (2, B, 1, 2 if letter == 'T' else 1), (3, D, 1, 1)]

            def events(rich, name=name, letter=letter, recs=recs, rows=rows):
                s = Scene(w, letter=letter, ext=EXT[letter], binary=True, rows=rows, seltyp=A, number='9', fileprefix='',
                          extra=rich)
                top, low = s.top_records, s.lower_records
                more = (model_rich(' top') + (results_rich(' top') if letter == 'R' else [])) if rich else []
                s.top_records = lambda: top()[:-1] + more + top()[-1:]
                last = s.lower[-1][0]

                def lower(row):
                    if row is rows[-1]:
                        return [R('IDENT', [1., 6., 3.])] * any(r.name == 'IDENT' for r in recs) + \
                            [r for r in recs if r.name != 'IDENT'] + [R('IEND', [0.])]
                    return low(row)[:-1] + more + low(row)[-1:]
                s.lower_records = lower
                s.present = [rich] * (len(s.lower) - 1) + [True]
                w.files = s.files()
                o = Outcome(w, w.convert([s.call()]))
                ev = o.events
                at = [k for k, p in enumerate(ev) if p.op == 'open' and p.args[1] is last]
                if not at:
                    raise Unsupported('the last file is not opened: %s' % ', '.join(T.show(p.args[1], 5) for p in ev if p.op == 'open'))
                return [e for e in observable(ev[at[0]:], w)]
            unit = '%s in the last file of a %s of %d levels' % (name, 'results model' if letter == 'R' else 'model', 3 if three else 2)

            def one(unit=unit, events=events):
                a, b = events(False), events(True)
                rep.tally('pairs of conversions analysed')
                d = difference(a, b)
                if d:
                    rep.violation(unit, where, 'after other files with more records the last file gives %s; without them %s' % (
                        show_event(d[1]), show_event(d[0])))
                else:
                    rep.good(unit)
            rep.run(unit, one)


# ------------------------------------------------------------------ A06, A07
def closedness(w, e, h):
    """None: never opened, True / False / Unsupported"""
    v = e.st.get(('a', h, 'closed'))
    if v is None:
        return None
    v = T.assume_all(v, e.st[PC]) if hasattr(T, 'assume_all') else v
    if v in (TRUE, FALSE):
        return v is TRUE
    leaves = [x for x in T.leaves(v)] if hasattr(T, 'leaves') else [v]
    raise Unsupported('whether a file is closed is not determined: %s' % T.show(v, 6)[:300] + str(len(leaves)))


def damaged(w):
    """conversions that end by an exception of their own"""
    out = []
    for name, letter, recs in probes():
        if name in ('elements without their types', 'no identification', 'results without references'):
            for binary in (True, False):
                if letter == 'R' and not binary:
                    continue
                p = Plain(letter, recs, binary=binary)
                out.append(('file with ' + name + ('' if binary else ' (formatted)'), p.files(), [p.call()]))
    bad = Plain('T', [R('IDENT', [1., 9., 3.]), R('GELMNT1', [1., 1., 99., 0.])])
    out.append(('unknown element type', bad.files(), [bad.call()]))
    ok = Plain('T', [R('IDENT', [1., 9., 3.])])
    out.append(('missing file', {}, [ok.call()]))
    for n in ('/data/two/readme.txt', '/data/two/T1.SIN', '/data/two/1T.FEM'):
        out.append(('file name ' + n, {K(n): list(ok.files().values())[0]}, [([K(n)], {'hdf5name': K('/out/two.h5')})]))
    return out


def files_of_conversions(w, tier):
    A, B, D = K(9), K(7), K(6)
    out = []
    scenes = [dict(), dict(in_memory=True), dict(append=True), dict(letter='G', ext='SIF', binary=True),
              dict(letter='R', ext='SIF', hdf5=False), dict(letter='R', ext='SIU', binary=True, rows=[(1, A, 1, 2), (2, B, 1, 1), (3, B, 2, 1)], seltyp=A),
              dict(letter='T', ext='FEM', rows=[(1, A, 1, 3), (2, B, 1, 2), (3, D, 1, 1)], seltyp=A),
              dict(letter='T', ext='FEM', rows=[(1, A, 1, 2), (2, B, 1, 1)], seltyp=A, in_memory=True, present=[False]),
              dict(letter='T', ext='FEM', rows=[(1, A, 1, 2), (2, B, 1, 1)], seltyp=A, in_memory=True),
              dict(only=('IDENT', 'GNODE'), letter='R', ext='SIF')]
    for kw in scenes:
        sc = Scene(w, **kw)
        out.append((sc.describe(), sc.files(), [sc.call()]))
    two = [Plain('T', [R('IDENT', [1., 9., 3.])]), Plain('T', [R('IDENT', [1., 8., 3.])], number='8')]
    both = dict(two[0].files())
    both.update(two[1].files())
    names = seq('tuple', [K(p.name) for p in two])
    out.append(('sequence of files into one', both, [([names], {'hdf5name': K('/out/both.h5')})]))
    out.append(('sequence of files', both, [([names], {})]))
    return out


FAILURES = ('OSError', 'KeyboardInterrupt', 'KeyError', 'ValueError', 'tables.NoSuchNodeError', 'tables.HDF5ExtError', 'MemoryError',
            'StopIteration', 'SystemExit', 'TypeError')


def judge_exit(w, e, call, handles):
    """text of what is left open at an exit"""
    for h in handles:
        c = closedness(w, e, h)
        if c is not False:
            continue
        if e.kind == 'return' and w.I.D(e.val) is h:
            continue
        n = e.st.get(('a', h, 'filename')) or e.st.get(('a', h, 'name'))
        return '%s is left open when %s' % (T.show(n, 5), 'it returns' if e.kind == 'return' else '%s leaves by %s (%s)' % (
            call, w.I.exc_name(e.val) or T.show(e.val, 3), last_fact(e.st[PC])))
    return None


def last_fact(pc):
    """the condition under which a path ends"""
    a = None
    while pc.op == 'ite':
        a = pc.args[0]
        if pc.args[1] is FALSE:
            pc = pc.args[2]
        else:
            pc = pc.args[1]
    return T.show(a, 4).replace('.bool', '').replace('truth', '') if a is not None else 'always'


def judge_prompt(w, e):
    """each input file is closed before the next one is opened"""
    live = None
    for p in w.events(e):
        if p.op == 'open':
            if live is not None:
                return 'file %s is still open when %s is opened' % (T.show(live[1], 5), T.show(p.args[1], 5))
            live = (p.args[0], p.args[1])
        elif p.op == 'close' and live and p.args[0] is live[0]:
            live = None
    return None


def check_A06(tier):
    rep = Report('A06', tier, TECH,
                 'at every exit of sif2hdf5, open_sif, open_hdf5 and File - each call of the operating system and the HDF5 library may '
                 'fail - the files opened by the call are closed, except the one that is returned',
                 ['closing a file does not fail'])
    try:
        w = World((M, F))
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    kinds = FAILURES if tier == 'thorough' else FAILURES[:4]
    items = [(x, k, True) for x in files_of_conversions(w, tier) for k in kinds] + [(x, 'OSError', False) for x in damaged(w)]
    where = WHERE + 'sif2hdf5.py: sif2hdf5'

    def work(item):
        (name, files, calls), kind, fail = item
        unit = '%s, failures are %s' % (name, kind) if fail else name

        def one():
            w.files = dict(files)
            w.failure = kind
            ex = w.convert(calls, fail=fail, session='once')
            rep.tally('exits analysed', len(ex))
            rep.tally('points of failure', w.failures)
            for e in ex:
                bad = judge_exit(w, e, 'sif2hdf5', w.handles)
                if bad:
                    rep.violation(unit, where, bad)
                    return
                if e.kind == 'return':
                    bad = judge_prompt(w, e)
                    if bad:
                        rep.violation(unit, where, bad)
                        return
            rep.good(unit)
        rep.run(unit, one)
        rep.analysed |= {v for v in w.I.visited if v.startswith('freesif')}
    rep.parallel(work, items)
    opens = [(how, tree, k) for how in ('File', 'open_hdf5', 'open_sif') for tree in sorted(TREES) for k in kinds]

    def opening(item):
        how, tree, kind = item
        unit = '%s of a file with %s, failures are %s' % (how, tree, kind)

        def one():
            call, pre = open_call(w, how, tree)
            w.failure, w.fail, w.failures, w.handles = kind, True, 0, []
            ex = w.I.run(call, [pre])
            rep.tally('exits analysed', len(ex))
            rep.tally('points of failure', w.failures)
            for e in ex:
                if e.kind == 'return':
                    continue
                bad = judge_exit(w, e, how, w.handles)
                if bad:
                    rep.violation(unit, 'freesif/data/file.py: ' + how, bad)
                    return
            rep.good(unit)
        rep.run(unit, one)
        rep.analysed |= {v for v in w.I.visited if v.startswith('freesif')}
    rep.parallel(opening, opens)
    return rep


def attributes(level='FIRSTLEVEL', datatype='STRUCTURAL', filetype='T', **kw):
    d = dict(RECORDS=seq('list', [K('IDENT')]), LEVEL=K(level), DATATYPE=K(datatype), FILETYPE=K(filetype), SELTYP=K(1))
    d.update({k: K(v) for k, v in kw.items()})
    return d


TREES = {
    'no groups': [],
    'one first level group': [('/T1', attributes())],
    'results': [('/ab-R3', attributes(filetype='R', INDEX=None))],
    'hydrodynamic data': [('/G1', attributes('', 'HYDRODYNAMIC', 'G'))],
    'a hierarchy': [('/T1', attributes('TOPLEVEL')), ('/T1/T2', attributes('INTERLEVEL')), ('/T1/T3', attributes())],
    'several models': [('/T1', attributes('TOPLEVEL')), ('/T1/T3', attributes()), ('/G1', attributes('', 'HYDRODYNAMIC', 'G')),
                       ('/R9', attributes('TOPLEVEL', filetype='R')), ('/R9/R2_1', attributes(filetype='R', INDEX=1)),
                       ('/R9/R2_2', attributes(filetype='R', INDEX=2))],
    'a group without attributes': [('/T1', attributes()), ('/x', {})],
}


def open_call(w, how, tree):
    """(function, its argument) that opens a file; the world is set up for it"""
    I = w.I
    I.st = dict(w.base)
    w.keep = True
    w.files = {}
    if how == 'open_sif':
        letter = 'G' if 'hydro' in tree else 'R' if 'results' in tree else 'T'
        number = '9' if tree != 'no groups' else '5'
        p = Plain(letter, [R('IDENT', [1., 9., 3.])], number=number)
        w.files = p.files()
        return I.func(F, 'open_sif'), K(p.name)
    w.stores = {K('/d/a.h5'): TREES[tree]}
    return I.func(F, how), K('/d/a.h5')


WRITING = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.truncate', 'os.rmdir', 'shutil.move', 'shutil.copy', 'shutil.copyfile',
           'shutil.copy2', 'shutil.rmtree', 'tables.copy_file', 'numpy.save', 'numpy.savez', 'numpy.savetxt', 'os.makedirs', 'os.mkdir')


def check_A07(tier):
    rep = Report('A07', tier, TECH,
                 'every file opened by a conversion or by File/open_hdf5/open_sif is opened in the mode that the arguments ask for',
                 ['files are opened by open, io.open, codecs.open or tables.open_file'])
    try:
        w = World((M, F))
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    for n in WRITING:
        w.I.hooks[n] = lambda a, kw, n=n: (w.I.emit('touch', K(n), *[w.I.D(x) for x in a]), NONE)[1]
    where = WHERE + 'sif2hdf5.py: sif2hdf5; sequentialfiles.py'

    def modes(unit, files, calls, want, output):
        """want: [(name or None, modes allowed, in memory)] of the HDF5 files opened, in order"""
        w.files = dict(files)
        w.keep = False
        ex = w.convert(calls)
        o = Outcome(w, ex)
        ev = [p for p in w.events(ex[0]) if p.op in KINDS + ('touch',)]
        inputs = set(files)
        for p in ev:
            if p.op == 'open':
                m = p.args[2]
                if not T.is_kstr(m):
                    raise Unsupported('mode %s' % T.show(m, 3))
                if p.args[1] not in inputs:
                    return 'file %s is opened, which is no input file' % T.show(p.args[1], 5)
                if set(T.kval(m)) & set('wax+'):
                    return 'input file %s is opened with mode %r' % (T.show(p.args[1], 5), T.kval(m))
            if p.op == 'write':
                return 'data is written to input file %s' % T.show(p.args[0], 5)
            if p.op == 'touch' and (set(p.args[1:]) & inputs or output is None or set(p.args[1:]) & {output}):
                return '%s is called on %s' % (T.kval(p.args[0]), ', '.join(T.show(x, 5) for x in p.args[1:]))
        got = [p for p in ev if p.op == 'open_file']
        if o.failed:
            return 'the conversion fails: %s' % ', '.join(T.show(p, 4) for p in o.events if p.op == 'failed')
        if len(got) != len(want):
            return '%d HDF5 files are opened, should be %d' % (len(got), len(want))
        for p, (name, allowed, memory) in zip(got, want):
            h, n, m, driver, store = p.args
            if not T.is_kstr(m):
                raise Unsupported('mode %s' % T.show(m, 3))
            if T.kval(m) not in allowed:
                return 'HDF5 file %s is opened with mode %r, should be %s' % (T.show(n, 5), T.kval(m), ' or '.join(allowed))
            if memory and (driver is not K('H5FD_CORE') or store not in (K(0), FALSE, K(False))):
                return 'the HDF5 file of an in-memory conversion is opened with driver %s, backing store %s' % (T.show(driver, 2), T.show(store, 2))
            if not memory and driver is not NONE and driver in (K('H5FD_CORE'),) and store in (K(0), FALSE, K(False)):
                return 'the HDF5 file is kept in memory only'
            if isinstance(name, str):
                if not memory and not (T.is_kstr(n) and ('/' + T.kval(n)).endswith('/' + name)):
                    if n.op not in ('k', 'cat'):
                        raise Unsupported('name of the HDF5 file: %s' % T.show(n, 4))
                    return 'HDF5 file %s is opened, should be %s' % (T.show(n, 5), name)
            elif n is not name and not memory:
                return 'HDF5 file %s is opened, should be %s' % (T.show(n, 5), T.show(name, 5))
        done = [p.args[0] for p in o.events if p.op == 'done']
        if len(want) == 1 and len(done) == 1 and not want[0][2] and done[0] is not NONE and T.is_k(got[0].args[1]):
            if T.is_kstr(done[0]) and done[0] is not w.absolute(got[0].args[1]):
                return 'HDF5 file %s is written, %s is returned' % (T.show(got[0].args[1], 5), T.show(done[0], 5))
        return None
    stem = lambda n: os.path.splitext(os.path.basename(n))[0] + '.h5'       # noqa: E731

    NEW, OLD = ('w',), ('a', 'r+')
    items = []
    A, B, D = K(9), K(7), K(6)
    shapes = [dict(), dict(letter='R', ext='SIU', binary=True), dict(letter='G', ext='SIF'), dict(letter='L', ext='FEM', binary=True),
              dict(letter='r', ext='sif'), dict(letter='R', ext='SIU', binary=True, rows=[(1, A, 1, 2), (2, B, 1, 1), (3, B, 2, 1)], seltyp=A),
              dict(letter='T', ext='FEM', rows=[(1, A, 1, 3), (2, B, 1, 2), (3, D, 1, 1)], seltyp=A)]
    for kw in shapes:
        for append in (False, True):
            for memory in (False, True):
                for only in (None, ('IDENT', 'HIERARCH')):
                    for positional in (False, True):
                        sc = Scene(w, append=append, in_memory=memory, only=only, **kw)
                        call = sc.call()
                        if positional:
                            k = call[1]
                            call = ([K(sc.name), k['hdf5name'], k['append'], k['usefileprefix'], k.get('prefix', K('')), k.get('only', NONE),
                                     k['in_memory']], {})
                        want = [(sc.hdf5, NEW if memory or not append else OLD, memory)]
                        items.append((sc.describe() + (', positional arguments' if positional else ''), sc.files(), [call], want,
                                      None if memory else sc.hdf5 if append else NONE))
        for memory in (False, True):
            sc = Scene(w, hdf5=False, in_memory=memory, **kw)
            items.append((sc.describe() + ', no HDF5 name', sc.files(), [sc.call()], [(stem(sc.name), NEW, memory)], None if memory else NONE))
        for append in (False, True):
            for pre in ('', 'x'):
                sc = Scene(w, append=append, useprefix=False, prefix=pre, **kw)
                items.append((sc.describe(), sc.files(), [sc.call()], [(sc.hdf5, OLD if append else NEW, False)], sc.hdf5 if append else NONE))
        sc = Scene(w, **kw)
        items.append((sc.describe() + ', defaults', sc.files(), [([K(sc.name)], {})], [(stem(sc.name), NEW, False)], NONE))
    rec = lambda k: [R('IDENT', [1., float(k), 3.])]        # noqa: E731
    many = [Plain('T', rec(k), number=str(k)) for k in (9, 8, 7)]
    for n in (1, 2, 3):
        for kind in ('tuple', 'list'):
            fs = {}
            for p in many[:n]:
                fs.update(p.files())
            for append in (False, True):
                for pre, use, only in ((None, None, None), ('one', None, None), ('each', None, None), (None, False, None), ('each', False, None),
                                       (None, True, None), (None, None, ('IDENT',)), ('one', False, ('IDENT',))):
                    w.I.st = w.base
                    kw = {'hdf5name': K('/out/all.h5'), 'append': TRUE if append else FALSE}
                    said = ''
                    if pre:
                        kw['prefix'] = K('p') if pre == 'one' else seq('tuple', [K('p%d' % k) for k in range(n)])
                        said += ', prefix %s' % pre
                    if use is not None:
                        kw['usefileprefix'] = TRUE if use else FALSE
                        said += ', usefileprefix=%s' % use
                    if only:
                        kw['only'] = seq('tuple', [K(x) for x in only])
                        said += ', only'
                    names = seq(kind, [K(p.name) for p in many[:n]])
                    items.append(('%s of %d files into one%s%s' % (kind, n, ', append' if append else '', said), fs,
                                  [([names], kw)], [(K('/out/all.h5'), OLD if append or k else NEW, False) for k in range(n)],
                                  K('/out/all.h5') if append else NONE))
                    if not append:
                        kw = {k: v for k, v in kw.items() if k not in ('hdf5name', 'append')}
                        items.append(('%s of %d files each into its own%s' % (kind, n, said), fs,
                                      [([names], kw)], [(stem(p.name), NEW, False) for p in many[:n]], NONE))

    def work(item):
        unit, files, calls, want, output = item

        def one():
            bad = modes(unit, files, calls, want, output)
            if bad:
                rep.violation(unit, where, bad)
            else:
                rep.good(unit)
        rep.tally('calls analysed')
        rep.run(unit, one)
        rep.analysed |= {v for v in w.I.visited if v.startswith('freesif')}
    rep.parallel(work, items)

    # refused before any file is touched
    one_, two_ = Plain('T', rec(9)), Plain('T', rec(8), number='8')
    both = dict(one_.files())
    both.update(two_.files())
    names = lambda: seq('tuple', [K(one_.name), K(two_.name)])      # noqa: E731
    for unit, args, kw in (('append without HDF5 name', [K(one_.name)], {'append': TRUE}),
                           ('append without HDF5 name, names positional', [K(one_.name), NONE, TRUE], {}),
                           ('append without HDF5 name, empty name', [K(one_.name), K('')], {'append': TRUE}),
                           ('append without HDF5 name, sequence of files', [names()], {'append': TRUE})):
        def refuse(unit=unit, args=args, kw=kw):
            w.files = dict(both)
            ex = w.convert([(args, kw)], session='once')
            for e in ex:
                ev = [p for p in w.events(e) if p.op in ('open', 'open_file', 'touch')]
                if ev:
                    rep.violation(unit, where, 'a file is opened before the arguments are refused: %s' % T.show(ev[0], 5))
                    return
                if e.kind != 'raise':
                    rep.violation(unit, where, 'the arguments are accepted')
                    return
            rep.good(unit)
        rep.run(unit, refuse)
    for how in ('File', 'open_hdf5'):
        for mode in (None, 'r', 'a', 'r+', 'w'):
            for style in ('positional', 'keyword'):
                unit = '%s, mode %s (%s)' % (how, mode, style)

                def opening(how=how, mode=mode, unit=unit, style=style):
                    for tree in sorted(TREES):
                        if tree == 'a group without attributes':
                            continue
                        call, name = open_call(w, how, tree)
                        w.fail, w.handles = False, []
                        ex = w.I.run(call, [name] + ([K(mode)] if mode and style == 'positional' else []),
                                     {'mode': K(mode)} if mode and style == 'keyword' else {})
                        for e in ex:
                            ms = [p.args[2] for p in w.events(e) if p.op == 'open_file']
                            wrong = [m for m in ms if m is not K(mode or 'r')]
                            if wrong or len(ms) != 1:
                                rep.violation(unit, 'freesif/data/file.py: ' + how,
                                              'the file is opened with mode %s' % ', '.join(T.show(m, 3) for m in ms))
                                return
                    rep.good(unit)
                if mode or style == 'positional':
                    rep.run(unit, opening)
    for tree in ('one first level group', 'results', 'hydrodynamic data'):
        unit = 'open_sif of ' + tree

        def sif(tree=tree, unit=unit):
            call, name = open_call(w, 'open_sif', tree)
            w.fail, w.handles = False, []
            for e in w.I.run(call, [name]):
                for p in w.events(e):
                    if p.op == 'open_file' and (p.args[3] is not K('H5FD_CORE') or p.args[4] not in (K(0), FALSE)):
                        rep.violation(unit, 'freesif/data/file.py: open_sif', 'an HDF5 file is opened on disk')
                        return
                    if p.op == 'touch' or p.op == 'open' and set(T.kval(p.args[2])) & set('wax+'):
                        rep.violation(unit, 'freesif/data/file.py: open_sif', 'a file on disk is changed: %s' % T.show(p, 5))
                        return
            rep.good(unit)
        rep.run(unit, sif)
    rep.analysed |= {v for v in w.I.visited if v.startswith('freesif')}
    return rep
