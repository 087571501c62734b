"""Write small formatted SESAM interface files for the demonstrations."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.getcwd())


class Scratch(object):
    """a scratch directory, removed at the end"""
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='demo-')
        return self.dir

    def __exit__(self, *exc):
        shutil.rmtree(self.dir)


class Sif(object):
    def __init__(self):
        self.lines = []

    def rec(self, name, *fields):
        fields = list(fields)
        while len(fields) % 4:
            fields.append(0.)
        for i in range(0, len(fields), 4):
            self.lines.append('%-8s' % (name if i == 0 else '') + ''.join('%16.8E' % f for f in fields[i:i + 4]))
        return self

    def text(self, name, fields, *lines):
        self.rec(name, *fields)
        for l in lines:
            self.lines.append(' ' * 8 + '%-64s' % l)
        return self

    def write(self, path, end=True):
        with open(path, 'w') as f:
            f.write('\n'.join(self.lines + ['IEND    ' + ''.join('%16.8E' % 0. for _ in range(4))] * end) + '\n')
        return path


def expect(cond, text):
    if not cond:
        print('FAILED: ' + text)
        sys.exit(1)


def struc(nnodes, elements, filetype='R', hierarch=True):
    """model with elements [(elnox, eltyp, [nodes])]"""
    s = Sif()
    s.rec('IDENT', 1., 1., 3., 0.)
    if filetype == 'R' and hierarch:
        s.rec('HIERARCH', 8., 1., 1., 1., 1., 0., 0., 0.)
    for i in range(1, nnodes + 1):
        s.rec('GNODE', 1000. + i, i, 6., 123456.)
    for i in range(1, nnodes + 1):
        s.rec('GCOORD', i, i * 1., i * 10., i * 100.)
    for k, (elnox, eltyp, nodes) in enumerate(elements):
        s.rec('GELMNT1', elnox, k + 1., eltyp, 0., *nodes)
    return s


def sets(s, **named):
    """named element sets: name=[internal element numbers]"""
    for k, (name, members) in enumerate(sorted(named.items())):
        s.text('TDSETNAM', (4., k + 1., 100. + len(name), 0.), name)
    for k, (name, members) in enumerate(sorted(named.items())):
        s.rec('GSETMEMB', 5. + len(members), k + 1., 1., 2., 0., *members)
    return s
