"""Strings and bytes of known length made of constants and opaque pieces (the content of a file)."""
import struct

from . import terms as T
from .terms import K, raw, seq, Unsupported, is_k, kval


class Desync(Unsupported):
    """bytes of a number are taken for something else: the reader is not at the field it believes to be at"""


def desync(what, x):
    """certain on files whose fields are all known"""
    if numeric(x):
        raise Desync('%s is taken from %s' % (what, T.show(x, 4)))


def piece(width, v, role='num'):
    """a field of `width` characters; role num: the number v, text: unknown characters"""
    return raw('piece', width, v, role)


def flat(t):
    """(kind, parts) of a string of known layout, else None"""
    if t.op == 'txt':
        return t.args[0], list(t.args[1:])
    if t.op == 'k' and t.args[0] in ('str', 'bytes'):
        return t.args[0], [t] if kval(t) else []
    return None


def width(p):
    return len(kval(p)) if p.op == 'k' else p.args[0] if p.op == 'piece' else p.args[2] - p.args[1]


def mk(kind, parts):
    out = []
    for p in parts:
        if not width(p):
            continue
        if out and p.op == 'k' and out[-1].op == 'k':
            out[-1] = K(kval(out[-1]) + kval(p))
        elif out and p.op == 'part' and out[-1].op == 'part' and p.args[0] is out[-1].args[0] \
                and p.args[1] == out[-1].args[2]:
            out[-1] = cut(p.args[0], out[-1].args[1], p.args[2])
        else:
            out.append(p)
    if not out:
        return K('' if kind == 'str' else b'')
    if len(out) == 1 and out[0].op == 'k':
        return out[0]
    return raw('txt', kind, *out)


def cut(p, a, b):
    if a == 0 and b == p.args[0]:
        return p
    return raw('part', p, a, b)


def length(t):
    return sum(width(p) for p in flat(t)[1])


def sub(t, lo, hi):
    kind, parts = flat(t)
    out, pos = [], 0
    for p in parts:
        w = width(p)
        a, b = max(lo - pos, 0), min(hi - pos, w)
        if a < b:
            if p.op == 'k':
                out.append(K(kval(p)[a:b]))
            elif p.op == 'piece':
                out.append(cut(p, a, b))
            else:
                out.append(cut(p.args[0], p.args[1] + a, p.args[1] + b))
        pos += w
    return mk(kind, out)


def item(t, i):
    n = length(t)
    if i.op == 'slice':
        if not all(is_k(x) for x in i.args) or i.args[2] not in (T.NONE, K(1)):
            return None
        lo, hi, _ = slice(*[None if x is T.NONE else int(kval(x)) for x in i.args]).indices(n)
        return sub(t, lo, hi)
    if T.is_kint(i):
        k = kval(i)
        if not -n <= k < n:
            return None
        k %= n
        r = sub(t, k, k + 1)
        if flat(t)[0] == 'bytes':
            desync('a byte', r)
            return K(kval(r)[0]) if is_k(r) else raw('call', 'ord', r)
        return r
    return None


def concat(parts):
    fl = [flat(p) for p in parts]
    if any(f is None for f in fl) or len(set(f[0] for f in fl if f[1])) > 1:
        return None
    kind = next((f[0] for f in fl if f[1]), fl[0][0] if fl else 'str')
    return mk(kind, [p for f in fl for p in f[1]])


def equal(a, b):
    """a == b; a field holding a number is never taken for a name or for blanks"""
    fa, fb = flat(a), flat(b)
    if fa is None or fb is None:
        return None
    if fa[0] != fb[0] or length(a) != length(b):
        return T.FALSE
    if a is b:
        return T.TRUE
    n, pos = length(a), 0
    for t, o in ((a, b), (b, a)):
        pos = 0
        for p in flat(t)[1]:
            w = width(p)
            q = sub(o, pos, pos + w)
            if q is not p and q is not mk(fa[0], [p]):
                if p.op == 'k' and is_k(q):
                    return T.FALSE
                if numeric(p) and (is_k(q) or numeric(q)) or is_k(p) and numeric(q):
                    return T.FALSE
            pos += w
    return T.atom('eq', a, b)


def numeric(p):
    if p.op == 'txt':
        return any(numeric(x) for x in p.args[1:])
    return p.op == 'piece' and p.args[2] == 'num' or p.op == 'part' and p.args[0].args[2] == 'num'


def number(t):
    """float(t)"""
    f = flat(t)
    parts = [p for p in f[1] if not (is_k(p) and not kval(p).strip())]
    if len(parts) == 1 and parts[0].op == 'piece' and parts[0].args[2] == 'num':
        return parts[0].args[1]
    if len(parts) == 1 and is_k(parts[0]):
        try:
            return K(float(kval(parts[0])))
        except ValueError:
            return raw('exc', 'ValueError')
    if not parts:
        return raw('exc', 'ValueError')
    desync('a number', t)
    return raw('float', t)


def strip(t, chars, left, right):
    """None where the ends are not known"""
    kind, parts = flat(t)
    blank = None if chars is None else chars
    if left:
        while parts and is_k(parts[0]):
            v = kval(parts[0]).lstrip(blank)
            if v:
                parts[0] = K(v)
                break
            parts.pop(0)
    if right:
        while parts and is_k(parts[-1]):
            v = kval(parts[-1]).rstrip(blank)
            if v:
                parts[-1] = K(v)
                break
            parts.pop()
    r = mk(kind, parts)
    if r.op == 'txt':
        loose = lambda p: not is_k(p) and not (chars in ('\n', b'\n', '\r\n', b'\r\n') and (       # noqa: E731
            kind == 'str' or numeric(p)))       # no line end inside a line
        if left and loose(parts[0]) or right and loose(parts[-1]):
            return raw('stripped', r, int(left), int(right), K(chars) if chars is not None else T.NONE)
    return r


def split(t):
    """words between blanks; None where unknown text is involved. Numbers may fill their fields, so that adjacent fields
    need not be separated by a blank"""
    kind, parts = flat(t)
    words, cur = [], []

    def end():
        if cur:
            words.append(mk(kind, list(cur)))
            del cur[:]
    for p in parts:
        if is_k(p):
            v = kval(p)
            ws = v.split()
            if not ws or v[:1].isspace():
                end()
            for k, x in enumerate(ws):
                if k:
                    end()
                cur.append(K(x))
            if ws and v[-1:].isspace():
                end()
        elif numeric(p):
            if cur and is_k(cur[-1]):
                end()
            cur.append(p)
        else:
            return None
    end()
    return seq('list', words)


def fmt(text):
    """items [(code, count)] of a struct format"""
    import re
    text = text.replace(' ', '')
    order = ''
    if text[:1] in '@=<>!':
        order, text = text[0], text[1:]
    out = []
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', text):
        k = int(n) if n else 1
        out.extend([(c, k)] if c in 's' else [(c, 1)] * k)
    return order, out


def unpack(form, t, exact=True, at=0):
    """the tuple of struct.unpack, or the name of the exception"""
    f = flat(t)
    if f is None:
        return None
    if f[0] != 'bytes':
        return 'TypeError'
    order, items = fmt(form)
    total = struct.calcsize(form)
    if exact and total != length(t) or not exact and at + total > length(t):
        return 'struct.error'
    out, pos = [], at
    for c, k in items:
        if c == 's':
            out.append(sub(t, pos, pos + k))
            pos += k
            continue
        w = struct.calcsize((order or '=') + c)
        x = sub(t, pos, pos + w)
        pos += w
        if is_k(x):
            out.append(K(struct.unpack((order or '=') + c, kval(x))[0]))
        elif c == 'f' and order not in ('>', '!') and x.op == 'txt' and len(x.args) == 2 and x.args[1].op == 'piece' \
                and x.args[1].args[2] == 'num':
            out.append(x.args[1].args[1])
        elif c == 'x':
            continue
        else:
            if x.op == 'txt' and any(p.op == 'part' or p.op == 'k' for p in x.args[1:]) or order in ('>', '!') or c != 'f':
                desync('a value', x)
            out.append(raw('decoded', order + c, x))
    return seq('tuple', out)
