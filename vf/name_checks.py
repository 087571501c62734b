"""File names (A09)."""
import itertools

from . import terms as T
from . import relang
from .terms import K, NONE, TRUE, FALSE, raw, seq, Unsupported
from .check import Report
from .conv_checks import World, R, encode, sym, pieces, cut_path, M, F, TECH, WHERE

PREFIX = r'[A-Za-z0-9_-]*'
NUMBER = r'[1-9][0-9]*'
VALID = r'(?i)[A-Za-z0-9_-]*[rtgl][1-9][0-9]*(H[1-9][0-9]*)?\.(sif|siu|sin|fem)'
DIR = '/data/run'


class Mixed(Exception):
    """a pattern tells names of one shape apart: examples"""
    def __init__(self, where, names):
        Exception.__init__(self, where)
        self.names = names


class Names(object):
    """strings of file names in a world"""
    def __init__(self, w):
        self.w, self.lang, self.mixed, self.asked = w, {}, [], 0
        I = w.I
        I.hooks['rematch'] = self.rematch
        I.hooks['path.split'] = lambda a, kw: self.split(a[0])
        I.hooks['path.basename'] = lambda a, kw: self.split(a[0]).args[2]
        I.hooks['path.dirname'] = lambda a, kw: self.split(a[0]).args[1]
        I.hooks['path.splitext'] = lambda a, kw: self.splitext(a[0])

        for m in ('partition', 'rpartition', 'split', 'rsplit', 'startswith', 'endswith'):
            I.hooks['*', m] = lambda o, a, kw, m=m: self.method(m, o, a, kw)

    def method(self, name, o, a, kw):
        """string methods that depend on the known parts of a name only"""
        I = self.w.I
        if o.op != 'cat' or kw or not a:
            return NotImplemented
        a = [I.D(x) for x in a]
        if not T.is_kstr(a[0]) or any(p not in self.lang or self.lang[p][0] == '!' for p in o.args if not T.is_kstr(p)):
            return NotImplemented
        sep = T.kval(a[0])
        if name in ('startswith', 'endswith'):
            p = o.args[-1 if name == 'endswith' else 0]
            if T.is_kstr(p) and len(T.kval(p)) >= len(sep):
                return K(getattr(T.kval(p), name)(sep))
            return NotImplemented
        if len(sep) != 1 or any(relang.contains(self.lang[p], sep) for p in o.args if not T.is_kstr(p)):
            return NotImplemented
        atoms = []
        for p in o.args:
            atoms += [K(c) for c in T.kval(p)] if T.is_kstr(p) else [p]
        text = ''.join(T.kval(x) if T.is_kstr(x) else '\0' for x in atoms)
        rest = a[1:]
        if not all(T.is_kint(x) for x in rest):
            return NotImplemented
        parts = getattr(text, name)(sep, *[T.kval(x) for x in rest])
        out, k = [], 0
        for p in parts:
            if name in ('split', 'rsplit') and out:
                k += 1
            out.append(I.model.cat(atoms[k:k + len(p)]) if p else K(''))
            k += len(p)
        return seq('tuple', out) if name.endswith('partition') else I.new_list(out)

    def known(self, label, pattern):
        t = sym(label, 'str')
        self.lang[t] = pattern
        return t

    def split(self, t):
        t = self.w.I.D(t)
        r = cut_path(t)
        cat = self.w.I.model.cat
        if r is None:
            return seq('tuple', [K(''), t])
        return seq('tuple', [cat(r[0]) if r[0] else K('/'), cat(r[1]) if r[1] else K('')])

    def splitext(self, t):
        t = self.w.I.D(t)
        ps = pieces(t)
        cat = self.w.I.model.cat
        if T.is_kstr(ps[-1]) and '.' in T.kval(ps[-1]) and not T.kval(ps[-1]).startswith('.'):
            a, _, b = T.kval(ps[-1]).rpartition('.')
            return seq('tuple', [cat(ps[:-1] + [K(a)]), K('.' + b)])
        if T.is_kstr(ps[-1]) and len(ps) > 1 and T.kval(ps[-1]).startswith('.') and T.kval(ps[-1]).count('.') == 1:
            return seq('tuple', [cat(ps[:-1]), ps[-1]])
        return seq('tuple', [raw('call', 'path.root', t), raw('call', 'path.ext', t)])

    def shape(self, t):
        out, terms = [], []
        for p in pieces(t):
            if T.is_kstr(p):
                for c in T.kval(p):
                    out.append(('k', c))
                    terms.append(K(c))
            elif p in self.lang:
                q = self.lang[p]
                out.append(('not', '!' + q[1:]) if q[0] == '!' else ('re', q))
                terms.append(p)
            else:
                raise Unsupported('pattern on %s' % T.show(t, 4))
        return relang.Shape(out), terms

    def rematch(self, how, pat, flags, text):
        self.asked += 1
        text = self.w.I.D(text)
        pattern, fl = T.kval(pat), int(T.kval(flags))
        sh, terms = self.shape(text)
        verdict, yes, no = relang.decide(pattern, fl, how, sh)
        if verdict == 'none':
            return NONE
        if verdict == 'mixed':
            raise Mixed('pattern %r' % pattern, [yes, no])
        b = relang.build(pattern, fl, how)
        groups = [text]
        for g in range(1, b.groups + 1):
            span = relang.group_span(pattern, fl, how, sh, g)
            if span is False:
                raise Mixed('group %d of pattern %r' % (g, pattern), [yes])
            groups.append(NONE if span is None else self.w.I.model.cat(terms[span[0]:span[1]]) if span[0] < span[1] else K(''))
        return raw('symmatch', seq('tuple', groups), tuple(sorted(b.names.items())))


class Case(object):
    """a file name: parts of it, and the file under this name"""
    def __init__(self, prefix, letter, number, index, ext):
        self.prefix, self.letter, self.number, self.index, self.ext = prefix, letter, number, index, ext


def number_of(w, names, n):
    t = w.I.model.to_str(n)
    names.lang[t] = NUMBER
    return t


def run_names(w, files, func, args, kw=None, keep=False):
    """exits of a call with given files"""
    I = w.I
    I.st = dict(w.base)
    w.fail, w.failures, w.keep, w.handles, w.asked = False, 0, keep, [], []
    w.files = files
    return I.run(func, args, kw or {})


def content(seltyp, binary=True, lower=None):
    hier = []
    if lower is not None:
        hier = [R('HIERARCH', [8., 1., seltyp, 1., 2., 1., 0., 0.], blank=False), R('HIERARCH', [8., 2., lower, 1., 1., 1., 0., 0.], blank=False)]
    c, ends = encode([R('IDENT', [1., seltyp, 3.])] + hier + [R('DATE', [1., 0., 1., 72.], texts=[sym('date', 'str')]), R('IEND', [0.])], binary)
    return c, binary, ends


def tables_of(w, e):
    return sorted({p.args[1] for p in w.events(e) if p.op == 'table'}, key=repr)


def groups_held(w, e):
    """paths of the groups that a returned object holds"""
    out = []
    v = e.val
    if v.op != 'ref' or v.args[1] != 'inst':
        return None
    w.I.st = dict(e.st)
    cl = w.I.func('drive', 'Group').args[0]
    for k, x in e.st.items():
        if k[0] == 'a' and k[1] is v and T.Term is type(x) and x.op == 'ref' and x.args[1] == 'inst' and \
                cl in w.I.inst_class(x).mro():
            out.append(e.st[('a', x, '_v_pathname')])
    return out


def outcome(w, ex, how, want, hydro=False):
    """what is wrong with the exits of a call on a valid name, or None"""
    for e in ex:
        if hydro and e.kind == 'raise' and e.val.args[:1] == ('NoSuchRecordError',):
            continue                                # files of hydrodynamic results without the usual records
        if e.kind != 'return':
            return '%s is raised' % T.show(e.val, 3)
        if how == 'sif2hdf5':
            got = tables_of(w, e)
            if got != [want]:
                return 'data is stored in group %s, should be %s' % (', '.join(T.show(x, 6) for x in got) or '(none)', T.show(want, 6))
        elif how == 'open_sif':
            got = groups_held(w, e)
            if not got:
                return 'no data object is returned'
            if set(got) != {want}:
                return 'data of group %s is returned, should be %s' % (', '.join(T.show(x, 6) for x in got), T.show(want, 6))
    return None


def refused(w, ex):
    for e in ex:
        if e.kind != 'raise':
            return 'the name is accepted'
        if e.val.args[:1] != ('ValueError',):
            return '%s is raised, should be ValueError' % T.show(e.val, 3)
    return None


def sample_names(tier):
    """(name, number or None when it is not valid, is SIN)"""
    import re
    out = []
    for pre in ('', 'a', 'ab-', 'A_1', '12-', 'T1', 'R3H2', 'rtgl'):
        for letter in 'RTGLrtgl':
            for num in ('1', '20'):
                for h in ('', 'H1', 'h12'):
                    for ext in ('SIF', 'siu', 'FEM', 'Fem', 'SIN', 'sin'):
                        out.append(pre + letter + num + h + '.' + ext)
    bad = []
    for n in ('T1.SIF', 'R20H3.siu', 'ab-g7.SiF'):
        for k in range(len(n)):
            bad.append(n[:k] + n[k + 1:])
            for c in '.x0H-_ \n1':
                bad.append(n[:k] + c + n[k:])
                bad.append(n[:k] + c + n[k + 1:])
        for c in ('.bak', 'x', '\n', ' ', '1'):
            bad.append(n + c)
    out += [b for b in bad if '/' not in b and b]
    seen, res = set(), []
    for n in out:
        if n in seen:
            continue
        seen.add(n)
        m = re.fullmatch(VALID + r'', n)
        if m:
            num = re.fullmatch(r'(?i)([A-Za-z0-9_-]*)([rtgl])([1-9][0-9]*)(H[1-9][0-9]*)?\.(.*)', n)
            res.append((n, num.group(1), num.group(2), num.group(3), num.group(5)))
        else:
            res.append((n, None, None, None, None))
    return res


def check_A09(tier):
    rep = Report('A09', tier, TECH + '; patterns found in the source are turned into automata and compared with the language of names, '
                 'group by group',
                 'sif2hdf5 and open_sif accept exactly the valid names, whatever their parts, refuse .SIN, and the group that the first '
                 'stores a file in is the one that the second returns',
                 ['names consist of ASCII characters', 'the number in the name is the superelement type in the file', 'no symbolic links'])
    try:
        w = World((M, F))
        names = Names(w)
        funcs = {'sif2hdf5': w.I.func(M, 'sif2hdf5'), 'open_sif': w.I.func(F, 'open_sif')}
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    anchor = {'sif2hdf5': WHERE + 'sif2hdf5.py: sif2hdf5', 'open_sif': 'freesif/data/file.py: open_sif; helpers.py'}
    cat = w.I.model.cat

    def concrete(how, name):
        """what is wrong with the call on a constant name, or None"""
        import re
        m = re.fullmatch(r'(?i)([A-Za-z0-9_-]*)([rtgl])([1-9][0-9]*)(H[1-9][0-9]*)?\.(sif|siu|sin|fem)', name)
        n = K(DIR + '/' + name)
        ex = run_names(w, {n: content(float(m.group(3)) if m else 9.)}, funcs[how], [n], keep=True)
        if not m or m.group(5).upper() == 'SIN':
            return refused(w, ex)
        return outcome(w, ex, how, K('/' + m.group(1) + m.group(2).upper() + m.group(3)), m.group(2) in 'gG')

    def judge(how, unit, name, files, good):
        """good(exits) -> complaint or None"""
        def one():
            try:
                ex = run_names(w, files, funcs[how], [name], keep=True)
                bad = good(ex)
            except (Mixed, Unsupported) as e:
                # settled on single names
                cand = e.names if isinstance(e, Mixed) else []
                for n in [x for x in cand if x] + samples(unit):
                    rep.tally('single names')
                    c = concrete(how, n)
                    if c:
                        rep.violation(unit, anchor[how], 'file name %r: %s' % (n, c))
                        return
                if isinstance(e, Unsupported):
                    raise
                raise Unsupported('%s tells names apart, e.g. %s' % (e, ', '.join(repr(x) for x in cand)))
            if bad:
                rep.violation(unit, anchor[how], bad)
            else:
                rep.good(unit)
            rep.tally('names shapes')
        rep.run(unit, one)
        rep.analysed |= {v for v in w.I.visited if v.startswith('freesif')}
    every = sample_names(tier)
    groups = {}

    def samples(unit):
        return groups.get(unit.split(': ', 1)[1].split(' (')[0], [])

    def spec_unit(letter, index, ext):
        return 'names <prefix>%s<number>%s.%s' % (letter, index and index + '<number>', ext)

    items = []
    exts = [''.join(x) for e in ('sif', 'siu', 'fem', 'sin') for x in itertools.product(*[(c, c.upper()) for c in e])]
    for letter in 'RTGLrtgl':
        for index in ('', 'H', 'h'):
            for ext in exts:
                items.append((letter, index, ext))
    for letter, index, ext in items:
        groups[spec_unit(letter, index, ext)] = [n for n, p, l, k, e in every if l == letter and e == ext and
                                                ((index in n[len(p) + 1:].split('.')[0]) if index else
                                                 not set('Hh') & set(n[len(p) + 1:].split('.')[0]))]
    groups['names that are not valid'] = [n for n, p, l, k, e in every if p is None]

    def work(item):
        how, letter, index, ext, binary, hierarchy = item
        w.I.st = w.base
        n = T.padd(K(1), raw('len', sym('type of the superelement')))
        num = number_of(w, names, n)
        idx = number_of(w, names, T.padd(K(1), raw('len', sym('index'))))
        pre = names.known('file prefix', PREFIX)
        name = cat([K(DIR + '/'), pre, K(letter), num] + ([K(index), idx] if index else []) + [K('.' + ext)])
        want = cat([K('/'), pre, K(letter.upper()), num])
        good = (lambda ex: refused(w, ex)) if ext.upper() == 'SIN' else (lambda ex: outcome(w, ex, how, want, letter in 'gG'))
        lower = T.padd(K(1), raw('len', sym('type of the lower superelement'))) if hierarchy else None
        judge(how, '%s: %s%s' % (how, spec_unit(letter, index, ext), (' (formatted)' if not binary else '') + (' (hierarchy)' if hierarchy else '')),
              name, {name: content(n, binary, lower)}, good)
    todo = [(how,) + i + (True, False) for how in ('sif2hdf5', 'open_sif') for i in items]
    todo += [(how, letter, index, ext, binary, h) for how in ('sif2hdf5', 'open_sif') for letter in 'TtRrGgLl' for index in ('', 'H', 'h')
             for ext in ('SIF', 'sif', 'FEM', 'fem') for binary in (False, True) for h in (False, True)
             if (h or not binary) and not (h and letter in 'GgLl')]
    rep.parallel(work, todo)
    for how in ('sif2hdf5', 'open_sif'):
        w.I.st = w.base
        bad = names.known('name that is not valid', '!' + VALID)
        name = cat([K(DIR + '/'), bad])
        judge(how, '%s: names that are not valid' % how, name, {name: content(K(9.))}, lambda ex: refused(w, ex))
    return rep
