"""Languages of regular expressions: the pattern text found in the source against names described piece by piece.

A pattern is turned into an automaton with markers for its groups. Order of preference between alternatives is not
modelled: where it would matter (a group can be taken in two ways) the answer is `ambiguous`."""
import re
try:
    from re import _parser as sre_parse
except ImportError:                                          # before 3.11
    import sre_parse

from .terms import Unsupported

CHARS = [chr(c) for c in range(1, 128) if chr(c) != '/']     # characters of a file name


class Nfa(object):
    def __init__(self):
        self.eps, self.chars, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b, mark=None):
        self.eps.setdefault(a, []).append((b, mark))

    def c(self, a, chars, b):
        self.chars.setdefault(a, []).append((frozenset(chars), b))


def category(name):
    s = {'CATEGORY_DIGIT': '\\d', 'CATEGORY_NOT_DIGIT': '\\D', 'CATEGORY_WORD': '\\w', 'CATEGORY_NOT_WORD': '\\W',
         'CATEGORY_SPACE': '\\s', 'CATEGORY_NOT_SPACE': '\\S'}.get(str(name))
    if s is None:
        raise Unsupported('category %s in a pattern' % name)
    return {c for c in CHARS if re.match(s, c)}


class Builder(object):
    """automaton of a pattern; `fullstring`: it must reach the end of the text"""
    def __init__(self, pattern, flags, how):
        self.p = sre_parse.parse(pattern, flags)
        self.flags = self.p.state.flags
        self.nfa = Nfa()
        self.names = dict(self.p.state.groupdict)
        self.groups = self.p.state.groups - 1
        self.start = self.nfa.new()
        self.anchored = {}
        a = self.start
        if how == 'search':
            self.nfa.c(a, CHARS, a)
            b = self.nfa.new()
            self.nfa.e(a, b)
            a = b
        self.first = a if how != 'search' else None
        self.last = self.nfa.new()
        end = self.seq(self.p, a)
        self.nfa.e(end, self.last)
        if how != 'fullmatch':
            # anything may follow
            rest = self.nfa.new()
            self.nfa.c(self.last, CHARS, rest)
            self.nfa.c(rest, CHARS, rest)
            self.accept = {self.last, rest}
        else:
            self.accept = {self.last}

    def fold(self, chars, flags):
        if flags & re.IGNORECASE:
            return {x for c in chars for x in (c.lower(), c.upper(), c) if x in CHARS}
        return set(chars)

    def seq(self, items, a):
        for op, arg in items:
            a = self.item(str(op), arg, a)
        return a

    def item(self, op, arg, a):
        n = self.nfa
        if op == 'LITERAL':
            return self.step(a, {chr(arg)})
        if op == 'NOT_LITERAL':
            return self.step(a, set(CHARS) - self.fold({chr(arg)}, self.flags), False)
        if op == 'ANY':
            return self.step(a, set(CHARS) - (set() if self.flags & re.DOTALL else {'\n'}), False)
        if op == 'IN':
            return self.step(a, self.charset(arg), False)
        if op == 'CATEGORY':
            return self.step(a, category(arg), False)
        if op == 'SUBPATTERN':
            group, add, sub, p = arg
            old, self.flags = self.flags, (self.flags | add) & ~sub
            if group is not None:
                b = n.new()
                n.e(a, b, ('open', group))
                c = self.seq(p, b)
                d = n.new()
                n.e(c, d, ('close', group))
            else:
                d = self.seq(p, a)
            self.flags = old
            return d
        if op == 'BRANCH':
            end = n.new()
            for p in arg[1]:
                b = n.new()
                n.e(a, b)
                n.e(self.seq(p, b), end)
            return end
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, p = arg
            if lo > 50 or hi is not sre_parse.MAXREPEAT and hi > 50:
                raise Unsupported('repeat count in a pattern')
            for _ in range(lo):
                a = self.seq(p, a)
            if hi is sre_parse.MAXREPEAT or str(hi) == 'MAXREPEAT':
                loop, end = n.new(), n.new()
                n.e(a, loop)
                n.e(loop, end)
                n.e(self.seq(p, loop), loop)
                return end
            end = n.new()
            n.e(a, end)
            for _ in range(hi - lo):
                a = self.seq(p, a)
                n.e(a, end)
            return end
        if op == 'AT':
            k = str(arg)
            if k in ('AT_BEGINNING', 'AT_BEGINNING_STRING') and not self.flags & re.MULTILINE:
                b = n.new()
                n.e(a, b, ('at', 'begin'))
                return b
            if k == 'AT_END_STRING' or k == 'AT_END' and not self.flags & re.MULTILINE:
                b = n.new()
                n.e(a, b, ('at', 'end' if k == 'AT_END_STRING' else 'dollar'))
                return b
        raise Unsupported('%s in a pattern' % op)

    def step(self, a, chars, fold=True):
        if fold:
            chars = self.fold(chars, self.flags)
        b = self.nfa.new()
        self.nfa.c(a, chars, b)
        return b

    def charset(self, items):
        out, negate = set(), False
        for op, arg in items:
            op = str(op)
            if op == 'NEGATE':
                negate = True
            elif op == 'LITERAL':
                out.add(chr(arg))
            elif op == 'RANGE':
                out |= {chr(c) for c in range(arg[0], min(arg[1], 127) + 1)}
            elif op == 'CATEGORY':
                out |= category(arg)
            else:
                raise Unsupported('%s in a pattern' % op)
        out = self.fold(out, self.flags)
        return set(CHARS) - out if negate else out & set(CHARS)


def contains(pattern, ch):
    """can a string of the language of a simple pattern contain a character?"""
    return any(ch in cs for l in build(pattern, 0, 'fullmatch').nfa.chars.values() for cs, _ in l)


_cache = {}


def build(pattern, flags, how):
    k = (pattern, flags, how)
    if k not in _cache:
        _cache[k] = Builder(pattern, flags, how)
    return _cache[k]


# a state of the run: (state, mode) with mode 0 normal, 1 no more characters may follow, 2 one '\n' may follow
def closure(b, states, begin, mark=None):
    """states reachable without reading; mark(track, m) follows group marks"""
    todo, out = list(states), set(states)
    while todo:
        s = todo.pop()
        q, mode, track = s
        for r, m in b.nfa.eps.get(q, ()):
            nm, t = mode, track
            if m is not None:
                if m == ('at', 'begin'):
                    if not begin:
                        continue
                elif m[0] == 'at':
                    nm = max(mode, 0) if mode == 1 else (1 if m[1] == 'end' else 2)
                elif mark is not None:
                    t = mark(track, m)
                    if t is False:
                        continue
            x = (r, nm, t)
            if x not in out:
                out.add(x)
                todo.append(x)
    return out


def read(b, states, ch):
    out = set()
    for q, mode, track in states:
        if mode == 1 or mode == 2 and ch != '\n':
            continue
        for chars, r in b.nfa.chars.get(q, ()):
            if ch in chars:
                out.add((r, 1 if mode == 2 else mode, track))
    return out


def accepts(b, states):
    return any(q in b.accept for q, _, _ in states)


class Shape(object):
    """a name as pieces: constant strings and languages (pattern texts); '!pattern' is everything but the pattern"""
    def __init__(self, pieces):
        self.pieces = list(pieces)          # ('k', text) or ('re', pattern)
        self.auto = [build(p, 0, 'fullmatch') if k == 're' else build(p[1:], 0, 'fullmatch') if k == 'not' else None
                     for k, p in self.pieces]

    def initial(self):
        return self.settle({(0, self.inside(0))})

    def inside(self, k):
        if k >= len(self.pieces):
            return None
        kind, p = self.pieces[k]
        if kind == 'k':
            return 0
        return frozenset(closure(self.auto[k], {(self.auto[k].start, 0, None)}, True))

    def settle(self, confs):
        """add configurations at the start of the next piece when a piece may end here"""
        out, todo = set(confs), list(confs)
        while todo:
            k, at = todo.pop()
            if k < len(self.pieces) and self.may_end(k, at):
                n = (k + 1, self.inside(k + 1))
                if n not in out:
                    out.add(n)
                    todo.append(n)
        return frozenset(out)

    def may_end(self, k, at):
        kind, p = self.pieces[k]
        if kind == 'k':
            return at == len(p)
        ok = accepts(self.auto[k], at)
        return not ok if kind == 'not' else ok

    def read(self, confs, ch):
        """[configuration -> configurations] with a character read"""
        out = set()
        for k, at in confs:
            if k >= len(self.pieces):
                continue
            kind, p = self.pieces[k]
            if kind == 'k':
                if at < len(p) and p[at] == ch:
                    out.add((k, at + 1))
            else:
                n = frozenset(closure(self.auto[k], read(self.auto[k], at, ch), False))
                if n or kind == 'not':
                    out.add((k, n))
        return out

    def done(self, confs):
        return any(k >= len(self.pieces) for k, _ in confs)


def relevant(b, shape):
    """one character of each class that neither the pattern nor the shape tells apart"""
    sets = [cs for l in b.nfa.chars.values() for cs, _ in l]
    for a in shape.auto:
        if a is not None:
            sets += [cs for l in a.nfa.chars.values() for cs, _ in l]
    for k, p in shape.pieces:
        if k == 'k':
            sets += [frozenset(c) for c in p]
    sets = list(set(sets)) + [frozenset('\n')]
    seen = {}
    for c in sorted(CHARS, key=lambda c: (not c.isalnum(), c)):
        seen.setdefault(tuple(c in s for s in sets), c)
    return list(seen.values())


def decide(pattern, flags, how, shape):
    """('all'|'none'|'mixed', example accepted, example rejected) of the names of a shape"""
    b = build(pattern, flags, how)
    chars = relevant(b, shape)
    start = (frozenset(closure(b, {(b.start, 0, None)}, True)), shape.initial())
    seen, todo = {start: ''}, [start]
    yes = no = None
    while todo:
        nxt = []
        for conf in todo:
            ps, ss = conf
            if shape.done(ss):
                if accepts(b, ps):
                    yes = seen[conf] if yes is None else yes
                else:
                    no = seen[conf] if no is None else no
            for c in chars:
                s2 = shape.settle(shape.read(ss, c))
                if not s2:
                    continue
                n = (frozenset(closure(b, read(b, ps, c), False)), s2)
                if n not in seen:
                    seen[n] = seen[conf] + c
                    nxt.append(n)
                    if len(seen) > 20000:
                        raise Unsupported('pattern too large')
        todo = nxt
    return ('all' if no is None else 'none' if yes is None else 'mixed'), yes, no


def group_span(pattern, flags, how, shape, group):
    """(first piece, last piece + 1) of what a group takes of every name of the shape; None: the group takes no part;
    False: it depends on the name, or cuts a piece"""
    b = build(pattern, flags, how)
    chars = relevant(b, shape)
    last = len(shape.pieces)
    fresh = [shape.inside(k) for k in range(last + 1)]
    res = set()
    seen, todo = set(), []

    def here(place):
        def mark(track, m):
            if m[0] in ('open', 'close') and m[1] == group:
                return (place, None) if m[0] == 'open' else (track[0], place)
            return track
        return mark

    def arrive(q, mode, track, k, at, low):
        """between two characters: pieces may end here, then the pattern takes its empty steps"""
        lo, ends = low, [(k, at)]
        while True:
            place = None if lo is None and k == ends[0][0] else (ends[0][0] + 1 if lo is None else lo, k)
            for r, m2, t2 in closure(b, {(q, mode, track)}, low is not None, here(place)):
                x = (r, m2, t2, k, at)
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
                    if len(seen) > 50000:
                        raise Unsupported('pattern too large')
            if k >= last or not shape.may_end(k, at):
                return
            k, at = k + 1, fresh[k + 1]
    arrive(b.start, 0, (None, None), 0, fresh[0], 0)
    while todo:
        q, mode, track, k, at = todo.pop()
        if k >= last:
            if q in b.accept:
                res.add(track)
            continue
        for c in chars:
            ps = read(b, {(q, mode, track)}, c)
            if ps:
                for k2, at2 in shape.read({(k, at)}, c):
                    for r, m2, t2 in ps:
                        arrive(r, m2, t2, k2, at2, None)
    if res == {(None, None)}:
        return None
    if not res or any(x is None for r in res for x in r):
        return False
    x, y = max(r[0][0] for r in res), max(r[1][0] for r in res)
    if all(r[0][0] <= x <= r[0][1] and r[1][0] <= y <= r[1][1] for r in res) and x <= y:
        return (x, y)
    return False
